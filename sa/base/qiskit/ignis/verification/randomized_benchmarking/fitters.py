from abc import ABC, abstractmethod
from scipy.optimize import curve_fit
import numpy as np
from qiskit import QiskitError
from qiskit.quantum_info.analysis.average import average_data
from ..tomography import marginal_counts
from ...utils import build_counts_dict_from_list
try:
    from matplotlib import pyplot as plt
    HAS_MATPLOTLIB = True
except ImportError:
    HAS_MATPLOTLIB = False

class RBFitterBase(ABC):

    @property
    @abstractmethod
    def raw_data(self):
        return

    @property
    @abstractmethod
    def cliff_lengths(self):
        return

    @property
    @abstractmethod
    def ydata(self):
        return

    @property
    @abstractmethod
    def fit(self):
        return

    @property
    @abstractmethod
    def rb_fit_fun(self):
        return

    @property
    @abstractmethod
    def seeds(self):
        return

    @property
    @abstractmethod
    def results(self):
        return

    @abstractmethod
    def add_data(self):
        return

    @abstractmethod
    def calc_data(self):
        return

    @abstractmethod
    def calc_statistics(self):
        return

    @abstractmethod
    def fit_data_pattern(self):
        return

    @abstractmethod
    def fit_data(self):
        return

    @abstractmethod
    def plot_rb_data(self):
        return

class RBFitter(RBFitterBase):

    def __init__(self, backend_result, cliff_lengths, rb_pattern=None):
        if rb_pattern is None:
            rb_pattern = [[0]]
        self._cliff_lengths = cliff_lengths
        self._rb_pattern = rb_pattern
        self._raw_data = []
        self._ydata = []
        self._fit = [{} for e in rb_pattern]
        self._nseeds = []
        self._circ_name_type = ''
        self._result_list = []
        self.add_data(backend_result)

    @property
    def raw_data(self):
        return self._raw_data

    @raw_data.setter
    def raw_data(self, raw_data):
        if raw_data is None:
            self._raw_data = []
        else:
            self._raw_data = raw_data

    @property
    def cliff_lengths(self):
        return self._cliff_lengths

    @property
    def ydata(self):
        return self._ydata

    @ydata.setter
    def ydata(self, ydata):
        if ydata is None:
            self._ydata = []
        else:
            self._ydata = ydata

    @property
    def fit(self):
        return self._fit

    @fit.setter
    def fit(self, fit):
        if fit is None:
            self._fit = []
        else:
            self._fit = fit

    @property
    def rb_fit_fun(self):
        return self._rb_fit_fun

    @property
    def seeds(self):
        return self._nseeds

    @property
    def results(self):
        return self._result_list

    def add_data(self, new_backend_result, rerun_fit=True):
        if new_backend_result is None:
            return
        if not isinstance(new_backend_result, list):
            new_backend_result = [new_backend_result]
        for result in new_backend_result:
            self._result_list.append(result)
            for rbcirc in result.results:
                nseeds_circ = int(rbcirc.header.name.split('_')[-1])
                if nseeds_circ not in self._nseeds:
                    self._nseeds.append(nseeds_circ)
        if rerun_fit:
            self.calc_data()
            self.calc_statistics()
            self.fit_data()

    @staticmethod
    def _rb_fit_fun(x, a, alpha, b):
        return a * alpha ** x + b

    def calc_data(self):
        self._circ_name_type = self._result_list[0].results[0].header.name.split('_length')[0]
        circ_counts = {}
        circ_shots = {}
        for seed in self._nseeds:
            for circ, _ in enumerate(self._cliff_lengths[0]):
                circ_name = self._circ_name_type + '_length_%d_seed_%d' % (circ, seed)
                count_list = []
                for result in self._result_list:
                    try:
                        count_list.append(result.get_counts(circ_name))
                    except (QiskitError, KeyError):
                        pass
                circ_counts[circ_name] = build_counts_dict_from_list(count_list)
                circ_shots[circ_name] = sum(circ_counts[circ_name].values())
        self._raw_data = []
        startind = 0
        for patt_ind in range(len(self._rb_pattern)):
            string_of_0s = ''
            string_of_0s = string_of_0s.zfill(len(self._rb_pattern[patt_ind]))
            self._raw_data.append([])
            endind = startind + len(self._rb_pattern[patt_ind])
            for seedidx, seed in enumerate(self._nseeds):
                self._raw_data[-1].append([])
                for k, _ in enumerate(self._cliff_lengths[patt_ind]):
                    circ_name = self._circ_name_type + '_length_%d_seed_%d' % (k, seed)
                    counts_subspace = marginal_counts(circ_counts[circ_name], np.arange(startind, endind))
                    self._raw_data[-1][seedidx].append(counts_subspace.get(string_of_0s, 0) / circ_shots[circ_name])
            startind = endind

    def calc_statistics(self):
        self._ydata = []
        for patt_ind in range(len(self._rb_pattern)):
            self._ydata.append({})
            self._ydata[-1]['mean'] = np.mean(self._raw_data[patt_ind], 0)
            if len(self._raw_data[patt_ind]) == 1:
                self._ydata[-1]['std'] = None
            else:
                self._ydata[-1]['std'] = np.std(self._raw_data[patt_ind], 0)

    def fit_data_pattern(self, patt_ind, fit_guess):
        lens = self._cliff_lengths[patt_ind]
        qubits = self._rb_pattern[patt_ind]
        if not self._ydata[patt_ind]['std'] is None:
            sigma = self._ydata[patt_ind]['std'].copy()
            if len(sigma) - np.count_nonzero(sigma) > 0:
                sigma = None
        else:
            sigma = None
        params, pcov = curve_fit(self._rb_fit_fun, lens, self._ydata[patt_ind]['mean'], sigma=sigma, p0=fit_guess, bounds=([0, 0, 0], [1, 1, 1]))
        alpha = params[1]
        params_err = np.sqrt(np.diag(pcov))
        alpha_err = params_err[1]
        nrb = 2 ** len(qubits)
        epc = (nrb - 1) / nrb * (1 - alpha)
        epc_err = (nrb - 1) / nrb * alpha_err / alpha
        self._fit[patt_ind] = {'params': params, 'params_err': params_err, 'epc': epc, 'epc_err': epc_err}

    def fit_data(self):
        for patt_ind, _ in enumerate(self._rb_pattern):
            qubits = self._rb_pattern[patt_ind]
            fit_guess = [0.95, 0.99, 1 / 2 ** len(qubits)]
            y0 = self._ydata[patt_ind]['mean'][0]
            y1 = self._ydata[patt_ind]['mean'][1]
            dcliff = self._cliff_lengths[patt_ind][1] - self._cliff_lengths[patt_ind][0]
            dy = (y1 - fit_guess[2]) / (y0 - fit_guess[2])
            alpha_guess = dy ** (1 / dcliff)
            if alpha_guess < 1.0:
                fit_guess[1] = alpha_guess
            if y0 > fit_guess[2]:
                fit_guess[0] = (y0 - fit_guess[2]) / fit_guess[1] ** self._cliff_lengths[patt_ind][0]
            self.fit_data_pattern(patt_ind, tuple(fit_guess))

    def plot_rb_data(self, pattern_index=0, ax=None, add_label=True, show_plt=True):
        fit_function = self._rb_fit_fun
        if not HAS_MATPLOTLIB:
            raise ImportError('The function plot_rb_data needs matplotlib. Run "pip install matplotlib" before.')
        if ax is None:
            plt.figure()
            ax = plt.gca()
        xdata = self._cliff_lengths[pattern_index]
        for one_seed_data in self._raw_data[pattern_index]:
            ax.plot(xdata, one_seed_data, color='gray', linestyle='none', marker='x')
        ax.errorbar(xdata, self._ydata[pattern_index]['mean'], yerr=self._ydata[pattern_index]['std'], color='r', linestyle='--', linewidth=3)
        ax.plot(xdata, fit_function(xdata, *self._fit[pattern_index]['params']), color='blue', linestyle='-', linewidth=2)
        ax.tick_params(labelsize=14)
        ax.set_xlabel('Clifford Length', fontsize=16)
        ax.set_ylabel('Ground State Population', fontsize=16)
        ax.grid(True)
        if add_label:
            bbox_props = dict(boxstyle='round,pad=0.3', fc='white', ec='black', lw=2)
            ax.text(0.6, 0.9, 'alpha: %.3f(%.1e) EPC: %.3e(%.1e)' % (self._fit[pattern_index]['params'][1], self._fit[pattern_index]['params_err'][1], self._fit[pattern_index]['epc'], self._fit[pattern_index]['epc_err']), ha='center', va='center', size=14, bbox=bbox_props, transform=ax.transAxes)
        if show_plt:
            plt.show()

class InterleavedRBFitter(RBFitterBase):

    def __init__(self, original_result, interleaved_result, cliff_lengths, rb_pattern=None):
        if rb_pattern is None:
            rb_pattern = [[0]]
        self._cliff_lengths = cliff_lengths
        self._rb_pattern = rb_pattern
        self._fit_interleaved = []
        self._rbfit_original = RBFitter(original_result, cliff_lengths, rb_pattern)
        self._rbfit_interleaved = RBFitter(interleaved_result, cliff_lengths, rb_pattern)
        if not (original_result is None and interleaved_result is None):
            self.fit_data()

    @property
    def rbfit_std(self):
        return self._rbfit_original

    @property
    def rbfit_int(self):
        return self._rbfit_interleaved

    @property
    def cliff_lengths(self):
        return self._cliff_lengths

    @property
    def fit(self):
        return [self.rbfit_std.fit, self.rbfit_int.fit]

    @property
    def fit_int(self):
        return self._fit_interleaved

    @property
    def rb_fit_fun(self):
        return self.rbfit_std.rb_fit_fun

    @property
    def seeds(self):
        return [self.rbfit_std.seeds, self.rbfit_int.seeds]

    @property
    def results(self):
        return [self.rbfit_std.results, self.rbfit_int.results]

    @property
    def ydata(self):
        return [self.rbfit_std.ydata, self.rbfit_int.ydata]

    @property
    def raw_data(self):
        return [self.rbfit_std.raw_data, self.rbfit_int.raw_data]

    def add_data(self, new_original_result, new_interleaved_result, rerun_fit=True):
        self.rbfit_std.add_data(new_original_result, rerun_fit)
        self.rbfit_int.add_data(new_interleaved_result, rerun_fit)
        if rerun_fit:
            self.fit_data()

    def calc_data(self):
        self.rbfit_std.calc_data()
        self.rbfit_int.calc_data()

    def calc_statistics(self):
        self.rbfit_std.calc_statistics()
        self.rbfit_int.calc_statistics()

    def fit_data_pattern(self, patt_ind, fit_guess, fit_index=0):
        if fit_index == 0:
            self.rbfit_std.fit_data_pattern(patt_ind, fit_guess)
        else:
            self.rbfit_int.fit_data_pattern(patt_ind, fit_guess)

    def fit_data(self):
        self.rbfit_std.fit_data()
        self.rbfit_int.fit_data()
        self._fit_interleaved = []
        for patt_ind, (_, qubits) in enumerate(zip(self._cliff_lengths, self._rb_pattern)):
            nrb = 2 ** len(qubits)
            alpha = self.rbfit_std.fit[patt_ind]['params'][1]
            alpha_c = self.rbfit_int.fit[patt_ind]['params'][1]
            alpha_err = self.rbfit_std.fit[patt_ind]['params_err'][1]
            alpha_c_err = self.rbfit_int.fit[patt_ind]['params_err'][1]
            epc_est = (nrb - 1) * (1 - alpha_c / alpha) / nrb
            systematic_err_1 = (nrb - 1) * (abs(alpha - alpha_c / alpha) + (1 - alpha)) / nrb
            systematic_err_2 = 2 * (nrb * nrb - 1) * (1 - alpha) / (alpha * nrb * nrb) + 4 * np.sqrt(1 - alpha) * np.sqrt(nrb * nrb - 1) / alpha
            systematic_err = min(systematic_err_1, systematic_err_2)
            systematic_err_L = epc_est - systematic_err
            systematic_err_R = epc_est + systematic_err
            alpha_err_sq = alpha_err / alpha * (alpha_err / alpha)
            alpha_c_err_sq = alpha_c_err / alpha_c * (alpha_c_err / alpha_c)
            epc_est_err = (nrb - 1) / nrb * (alpha_c / alpha) * np.sqrt(alpha_err_sq + alpha_c_err_sq)
            self._fit_interleaved.append({'alpha': alpha, 'alpha_err': alpha_err, 'alpha_c': alpha_c, 'alpha_c_err': alpha_c_err, 'epc_est': epc_est, 'epc_est_err': epc_est_err, 'systematic_err': systematic_err, 'systematic_err_L': systematic_err_L, 'systematic_err_R': systematic_err_R})

    def plot_rb_data(self, pattern_index=0, ax=None, add_label=True, show_plt=True):
        if not HAS_MATPLOTLIB:
            raise ImportError('The function plot_interleaved_rb_data             needs matplotlib. Run "pip install matplotlib" before.')
        if ax is None:
            plt.figure()
            ax = plt.gca()
        xdata = self._cliff_lengths[pattern_index]
        for one_seed_data in self.raw_data[0][pattern_index]:
            ax.plot(xdata, one_seed_data, color='blue', linestyle='none', marker='x')
        for one_seed_data in self.raw_data[1][pattern_index]:
            ax.plot(xdata, one_seed_data, color='red', linestyle='none', marker='+')
        std_fit_function = self.rbfit_std.rb_fit_fun
        int_fit_function = self.rbfit_int.rb_fit_fun
        ax.plot(xdata, std_fit_function(xdata, *self.fit[0][pattern_index]['params']), color='blue', linestyle='-', linewidth=2, label='Standard RB')
        ax.tick_params(labelsize=14)
        ax.plot(xdata, int_fit_function(xdata, *self.fit[1][pattern_index]['params']), color='red', linestyle='-', linewidth=2, label='Interleaved RB')
        ax.tick_params(labelsize=14)
        ax.set_xlabel('Clifford Length', fontsize=16)
        ax.set_ylabel('Ground State Population', fontsize=16)
        ax.grid(True)
        ax.legend(loc='lower left')
        if add_label:
            bbox_props = dict(boxstyle='round,pad=0.3', fc='white', ec='black', lw=2)
            ax.text(0.6, 0.9, 'alpha: %.3f(%.1e) alpha_c: %.3e(%.1e) \n                     EPC_est: %.3e(%.1e)' % (self._fit_interleaved[pattern_index]['alpha'], self._fit_interleaved[pattern_index]['alpha_err'], self._fit_interleaved[pattern_index]['alpha_c'], self._fit_interleaved[pattern_index]['alpha_c_err'], self._fit_interleaved[pattern_index]['epc_est'], self._fit_interleaved[pattern_index]['epc_est_err']), ha='center', va='center', size=14, bbox=bbox_props, transform=ax.transAxes)
        if show_plt:
            plt.show()

class PurityRBFitter(RBFitterBase):

    def __init__(self, purity_result, npurity, cliff_lengths, rb_pattern=None):
        if rb_pattern is None:
            rb_pattern = [[0]]
        self._cliff_lengths = cliff_lengths
        self._rb_pattern = rb_pattern
        self._npurity = npurity
        self._nq = len(rb_pattern[0])
        self._fit = [{} for e in rb_pattern]
        self._circ_name_type = ''
        self._zdict_ops = []
        self.add_zdict_ops()
        self._rbfit_purity = RBFitter(None, cliff_lengths, rb_pattern)
        self.add_data(purity_result)

    @property
    def rbfit_pur(self):
        return self._rbfit_purity

    @property
    def raw_data(self):
        return self.rbfit_pur.raw_data

    @property
    def cliff_lengths(self):
        return self._cliff_lengths

    @property
    def ydata(self):
        return self.rbfit_pur.ydata

    @property
    def fit(self):
        return self.rbfit_pur.fit

    @property
    def rb_fit_fun(self):
        return self.rbfit_pur.rb_fit_fun

    @property
    def seeds(self):
        return self.rbfit_pur.seeds

    @property
    def results(self):
        return self.rbfit_pur.results

    @staticmethod
    def _rb_pur_fit_fun(x, a, alpha, b):
        return a * alpha ** (2 * x) + b

    @staticmethod
    def F234(n, a, b):
        LUT = [[0, 0, 0], [3, 1, 2]]
        aseq = []
        bseq = []
        aa = a
        bb = b
        for i in range(n):
            aseq.append(np.mod(aa, 2))
            bseq.append(np.mod(bb, 3))
            aa = np.floor_divide(aa, 2)
            bb = np.floor_divide(bb, 3)
        c = 0
        for i in range(n):
            c += 4 ** i * LUT[aseq[i]][bseq[i]]
        return c

    def add_zdict_ops(self):
        statedict = {('{0:0%db}' % self._nq).format(i): 1 for i in range(2 ** self._nq)}
        for i in range(2 ** self._nq):
            self._zdict_ops.append(statedict.copy())
            for j in range(2 ** self._nq):
                if bin(i & j).count('1') % 2 != 0:
                    self._zdict_ops[-1][('{0:0%db}' % self._nq).format(j)] = -1

    def add_data(self, new_purity_result, rerun_fit=True):
        if new_purity_result is None:
            return
        self.rbfit_pur.add_data(new_purity_result, rerun_fit)
        if rerun_fit:
            self.calc_data()
            self.calc_statistics()
            self.fit_data()

    def calc_data(self):
        circ_counts = {}
        circ_shots = {}
        result_count = 0
        for _, seed in enumerate(self.rbfit_pur.seeds):
            for pur in range(self._npurity):
                self._circ_name_type = self.rbfit_pur.results[result_count].results[0].header.name.split('_length')[0]
                result_count += 1
                for circ, _ in enumerate(self._cliff_lengths[0]):
                    circ_name = self._circ_name_type + '_length_%d_seed_%d' % (circ, seed)
                    count_list = []
                    for result in self.rbfit_pur.results:
                        try:
                            count_list.append(result.get_counts(circ_name))
                        except (QiskitError, KeyError):
                            pass
                    circ_name = 'rb_purity_' + str(pur) + '_length_%d_seed_%d' % (circ, seed)
                    circ_counts[circ_name] = build_counts_dict_from_list(count_list)
                    circ_shots[circ_name] = sum(circ_counts[circ_name].values())
        self.rbfit_pur.raw_data = []
        startind = 0
        for patt_ind, _ in enumerate(self._rb_pattern):
            endind = startind + len(self._rb_pattern[patt_ind])
            self.rbfit_pur.raw_data.append([])
            for seedidx, seed in enumerate(self.rbfit_pur.seeds):
                self.rbfit_pur.raw_data[-1].append([])
                for k, _ in enumerate(self._cliff_lengths[0]):
                    corr_vec = [0] * 4 ** self._nq
                    count_vec = [0] * 4 ** self._nq
                    for pur in range(self._npurity):
                        circ_name = 'rb_purity_' + str(pur) + '_length_%d_seed_%d' % (k, seed)
                        counts_subspace = marginal_counts(circ_counts[circ_name], np.arange(startind, endind))
                        for indcorr in range(2 ** self._nq):
                            zcorr = average_data(counts_subspace, self._zdict_ops[indcorr])
                            zind = self.F234(self._nq, indcorr, pur)
                            corr_vec[zind] += zcorr
                            count_vec[zind] += 1
                    purity = 0
                    for idx, _ in enumerate(corr_vec):
                        purity += (corr_vec[idx] / count_vec[idx]) ** 2
                    purity = purity / 2 ** self._nq
                    self.rbfit_pur.raw_data[-1][seedidx].append(purity)
            startind = endind

    def calc_statistics(self):
        self.rbfit_pur.calc_statistics()

    def fit_data_pattern(self, patt_ind, fit_guess):
        self.rbfit_pur.fit_data_pattern(patt_ind, fit_guess)

    def fit_data(self):
        self.rbfit_pur.fit_data()
        for patt_ind, (_, _) in enumerate(zip(self._cliff_lengths, self._rb_pattern)):
            alpha = self.rbfit_pur.fit[patt_ind]['params'][1]
            alpha_pur = np.sqrt(alpha)
            self.rbfit_pur.fit[patt_ind]['params'][1] = alpha_pur
            alpha_err = self.rbfit_pur.fit[patt_ind]['params_err'][1]
            alpha_pur_err = alpha_err / (2 * np.sqrt(alpha_pur))
            self.rbfit_pur.fit[patt_ind]['params_err'][1] = alpha_pur_err
            nrb = 2 ** self._nq
            pepc = (nrb - 1) / nrb * (1 - alpha_pur)
            self.rbfit_pur.fit[patt_ind]['pepc'] = pepc
            pepc_err = (nrb - 1) / nrb * alpha_pur_err / alpha_pur
            self.rbfit_pur.fit[patt_ind]['pepc_err'] = pepc_err

    def plot_rb_data(self, pattern_index=0, ax=None, add_label=True, show_plt=True):
        fit_function = self._rb_pur_fit_fun
        if not HAS_MATPLOTLIB:
            raise ImportError('The function plot_rb_data needs matplotlib. Run "pip install matplotlib" before.')
        if ax is None:
            plt.figure()
            ax = plt.gca()
        xdata = self._cliff_lengths[pattern_index]
        for one_seed_data in self.rbfit_pur.raw_data[pattern_index]:
            ax.plot(xdata, one_seed_data, color='gray', linestyle='none', marker='x')
        ax.errorbar(xdata, self.rbfit_pur.ydata[pattern_index]['mean'], yerr=self.rbfit_pur.ydata[pattern_index]['std'], color='r', linestyle='--', linewidth=3)
        ax.plot(xdata, fit_function(xdata, *self.rbfit_pur.fit[pattern_index]['params']), color='blue', linestyle='-', linewidth=2)
        ax.tick_params(labelsize=14)
        ax.set_xlabel('Clifford Length', fontsize=16)
        ax.set_ylabel('Trace of Rho Square', fontsize=16)
        ax.grid(True)
        if add_label:
            bbox_props = dict(boxstyle='round,pad=0.3', fc='white', ec='black', lw=2)
            ax.text(0.6, 0.9, 'alpha: %.3f(%.1e) PEPC: %.3e(%.1e)' % (self.rbfit_pur.fit[pattern_index]['params'][1], self.rbfit_pur.fit[pattern_index]['params_err'][1], self.rbfit_pur.fit[pattern_index]['pepc'], self.rbfit_pur.fit[pattern_index]['pepc_err']), ha='center', va='center', size=14, bbox=bbox_props, transform=ax.transAxes)
        if show_plt:
            plt.show()

class CNOTDihedralRBFitter(RBFitterBase):

    def __init__(self, cnotdihedral_Z_result, cnotdihedral_X_result, elmnts_lengths, rb_pattern=None):
        if rb_pattern is None:
            rb_pattern = [[0]]
        self._cliff_lengths = elmnts_lengths
        self._rb_pattern = rb_pattern
        self._fit_cnotdihedral = []
        self._rbfit_Z = RBFitter(cnotdihedral_Z_result, elmnts_lengths, rb_pattern)
        self._rbfit_X = RBFitter(cnotdihedral_X_result, elmnts_lengths, rb_pattern)
        if not (cnotdihedral_Z_result is None and cnotdihedral_X_result is None):
            self.fit_data()

    @property
    def rbfit_Z(self):
        return self._rbfit_Z

    @property
    def rbfit_X(self):
        return self._rbfit_X

    @property
    def cliff_lengths(self):
        return self._cliff_lengths

    @property
    def fit(self):
        return [self.rbfit_Z.fit, self.rbfit_X.fit]

    @property
    def fit_cnotdihedral(self):
        return self._fit_cnotdihedral

    @property
    def rb_fit_fun(self):
        return self.rbfit_Z.rb_fit_fun

    @property
    def seeds(self):
        return [self.rbfit_Z.seeds, self.rbfit_X.seeds]

    @property
    def results(self):
        return [self.rbfit_Z.results, self.rbfit_X.results]

    @property
    def ydata(self):
        return [self.rbfit_Z.ydata, self.rbfit_X.ydata]

    @property
    def raw_data(self):
        return [self.rbfit_Z.raw_data, self.rbfit_X.raw_data]

    def add_data(self, new_cnotdihedral_Z_result, new_cnotdihedral_X_result, rerun_fit=True):
        self.rbfit_Z.add_data(new_cnotdihedral_Z_result, rerun_fit)
        self.rbfit_X.add_data(new_cnotdihedral_X_result, rerun_fit)
        if rerun_fit:
            self.fit_data()

    def calc_data(self):
        self.rbfit_Z.calc_data()
        self.rbfit_X.calc_data()

    def calc_statistics(self):
        self.rbfit_Z.calc_statistics()
        self.rbfit_X.calc_statistics()

    def fit_data_pattern(self, patt_ind, fit_guess, fit_index=0):
        if fit_index == 0:
            self.rbfit_Z.fit_data_pattern(patt_ind, fit_guess)
        else:
            self.rbfit_X.fit_data_pattern(patt_ind, fit_guess)

    def fit_data(self):
        self.rbfit_Z.fit_data()
        self.rbfit_X.fit_data()
        self._fit_cnotdihedral = []
        for patt_ind, (_, qubits) in enumerate(zip(self._cliff_lengths, self._rb_pattern)):
            nrb = 2 ** len(qubits)
            alpha_Z = self.rbfit_Z.fit[patt_ind]['params'][1]
            alpha_R = self.rbfit_X.fit[patt_ind]['params'][1]
            alpha_Z_err = self.rbfit_Z.fit[patt_ind]['params_err'][1]
            alpha_R_err = self.rbfit_X.fit[patt_ind]['params_err'][1]
            alpha = (alpha_Z + nrb * alpha_R) / (nrb + 1)
            alpha_Z_err_sq = (alpha_Z_err / alpha_Z / (nrb + 1)) ** 2
            alpha_R_err_sq = (nrb * alpha_R_err / alpha_R / (nrb + 1)) ** 2
            alpha_err = np.sqrt(alpha_Z_err_sq + alpha_R_err_sq)
            epg_est = (nrb - 1) * (1 - alpha) / nrb
            epg_est_err = (nrb - 1) / nrb * alpha_err / alpha
            self._fit_cnotdihedral.append({'alpha': alpha, 'alpha_err': alpha_err, 'epg_est': epg_est, 'epg_est_err': epg_est_err})

    def plot_rb_data(self, pattern_index=0, ax=None, add_label=True, show_plt=True):
        if not HAS_MATPLOTLIB:
            raise ImportError('The function plot_interleaved_rb_data             needs matplotlib. Run "pip install matplotlib" before.')
        if ax is None:
            plt.figure()
            ax = plt.gca()
        xdata = self._cliff_lengths[pattern_index]
        for one_seed_data in self.raw_data[0][pattern_index]:
            ax.plot(xdata, one_seed_data, color='blue', linestyle='none', marker='x')
        for one_seed_data in self.raw_data[1][pattern_index]:
            ax.plot(xdata, one_seed_data, color='red', linestyle='none', marker='+')
        rbfit_Z_function = self.rbfit_Z.rb_fit_fun
        rbfit_X_function = self.rbfit_X.rb_fit_fun
        ax.plot(xdata, rbfit_Z_function(xdata, *self.fit[0][pattern_index]['params']), color='blue', linestyle='-', linewidth=2, label='Measure state |0...0>')
        ax.tick_params(labelsize=14)
        ax.plot(xdata, rbfit_X_function(xdata, *self.fit[1][pattern_index]['params']), color='red', linestyle='-', linewidth=2, label='Measure state |+...+>')
        ax.tick_params(labelsize=14)
        ax.set_xlabel('CNOT-Dihedral Length', fontsize=16)
        ax.set_ylabel('Ground State Population', fontsize=16)
        ax.grid(True)
        ax.legend(loc='lower left')
        if add_label:
            bbox_props = dict(boxstyle='round,pad=0.3', fc='white', ec='black', lw=2)
            ax.text(0.6, 0.9, 'alpha: %.3f(%.1e) EPG_est: %.3e(%.1e)' % (self._fit_cnotdihedral[pattern_index]['alpha'], self._fit_cnotdihedral[pattern_index]['alpha_err'], self._fit_cnotdihedral[pattern_index]['epg_est'], self._fit_cnotdihedral[pattern_index]['epg_est_err']), ha='center', va='center', size=14, bbox=bbox_props, transform=ax.transAxes)
        if show_plt:
            plt.show()
