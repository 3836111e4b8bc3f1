import numpy as np
from scipy.optimize import curve_fit
from qiskit.exceptions import QiskitError
from qiskit.quantum_info.analysis.average import average_data
from qiskit.ignis.utils import build_counts_dict_from_list
from qiskit.ignis.verification.tomography import marginal_counts
from qiskit.ignis.verification.randomized_benchmarking.fitters import RBFitter


@of('utils.build_counts_dict_from_list')
def build_counts(count_list):
    """Counts are added outcome by outcome over all dictionaries."""
    total = {}
    for counts in count_list:
        for outcome in counts:
            total[outcome] = total.get(outcome, 0) + counts[outcome]
    return total


# ---------------------------------------------------------------- randomized benchmarking

NI = ('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.calc_data',
      'qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.calc_statistics',
      'qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.fit_data')


@of('RBFitter.__init__', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.add_data',))
def rb_init(self, backend_result, cliff_lengths, rb_pattern=None):
    if rb_pattern is None:
        rb_pattern = [[0]]
    self._cliff_lengths = cliff_lengths
    self._rb_pattern = rb_pattern
    self._raw_data = []
    self._ydata = []
    self._fit = [{} for _ in rb_pattern]
    self._nseeds = []
    self._circ_name_type = ''
    self._result_list = []
    self.add_data(backend_result)


@of('RBFitter.add_data', ret=False, no_inline=NI)
def rb_add(self, new_backend_result, rerun_fit=True):
    """Every result is kept once; a seed is listed once, in order of appearance."""
    if new_backend_result is None:
        return
    if not isinstance(new_backend_result, list):
        new_backend_result = [new_backend_result]
    for result in new_backend_result:
        self._result_list.append(result)
        for rbcirc in result.results:
            seed = int(rbcirc.header.name.split('_')[-1])
            if seed not in self._nseeds:
                self._nseeds.append(seed)
    if rerun_fit:
        self.calc_data()
        self.calc_statistics()
        self.fit_data()


@of('RBFitter.calc_data', ret=False)
def rb_calc(self):
    """Survival probability of the pattern's qubits per seed and length from the pooled counts."""
    self._circ_name_type = self._result_list[0].results[0].header.name.split("_length")[0]
    circ_counts = {}
    circ_shots = {}
    for seed in self._nseeds:
        for circ, _ in enumerate(self._cliff_lengths[0]):
            circ_name = self._circ_name_type + '_length_%d_seed_%d' % (circ, seed)
            count_list = []
            for result in self._result_list:
                try:
                    count_list.append(result.get_counts(circ_name))
                except (QiskitError, KeyError):
                    pass
            circ_counts[circ_name] = build_counts_dict_from_list(count_list)
            circ_shots[circ_name] = sum(circ_counts[circ_name].values())
    self._raw_data = []
    first = 0
    for patt_ind in range(len(self._rb_pattern)):
        ground = ''.zfill(len(self._rb_pattern[patt_ind]))
        self._raw_data.append([])
        end = first + len(self._rb_pattern[patt_ind])
        for seedidx, seed in enumerate(self._nseeds):
            self._raw_data[-1].append([])
            for k, _ in enumerate(self._cliff_lengths[patt_ind]):
                circ_name = self._circ_name_type + '_length_%d_seed_%d' % (k, seed)
                counts = marginal_counts(circ_counts[circ_name], np.arange(first, end))
                self._raw_data[-1][seedidx].append(counts.get(ground, 0) / circ_shots[circ_name])
        first = end


@of('RBFitter.fit_data', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.fit_data_pattern',))
def rb_fit(self):
    """Every pattern is fitted, the guess taken from its first two points."""
    for patt_ind, _ in enumerate(self._rb_pattern):
        qubits = self._rb_pattern[patt_ind]
        fit_guess = [0.95, 0.99, 1/2**len(qubits)]
        y0 = self._ydata[patt_ind]['mean'][0]
        y1 = self._ydata[patt_ind]['mean'][1]
        dcliff = self._cliff_lengths[patt_ind][1] - self._cliff_lengths[patt_ind][0]
        dy = (y1 - fit_guess[2]) / (y0 - fit_guess[2])
        alpha_guess = dy**(1/dcliff)
        if alpha_guess < 1.0:
            fit_guess[1] = alpha_guess
        if y0 > fit_guess[2]:
            fit_guess[0] = (y0 - fit_guess[2]) / fit_guess[1]**self._cliff_lengths[patt_ind][0]
        self.fit_data_pattern(patt_ind, tuple(fit_guess))


@of('RBFitter.raw_data')
def rb_raw(self):
    return self._raw_data


@of('RBFitter.ydata')
def rb_y(self):
    return self._ydata


@of('RBFitter.fit')
def rb_fitp(self):
    return self._fit


@of('RBFitter.seeds')
def rb_seeds(self):
    return self._nseeds


@of('RBFitter.results')
def rb_results(self):
    return self._result_list


@of('RBFitter.cliff_lengths')
def rb_lengths(self):
    return self._cliff_lengths


@of('InterleavedRBFitter.__init__', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.__init__',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.InterleavedRBFitter.fit_data'))
def int_init(self, original_result, interleaved_result, cliff_lengths, rb_pattern=None):
    if rb_pattern is None:
        rb_pattern = [[0]]
    self._cliff_lengths = cliff_lengths
    self._rb_pattern = rb_pattern
    self._fit_interleaved = []
    self._rbfit_original = RBFitter(original_result, cliff_lengths, rb_pattern)
    self._rbfit_interleaved = RBFitter(interleaved_result, cliff_lengths, rb_pattern)
    if not (original_result is None and interleaved_result is None):
        self.fit_data()




@of('InterleavedRBFitter.fit')
def int_fit(self):
    return [self._rbfit_original._fit, self._rbfit_interleaved._fit]


@of('InterleavedRBFitter.fit_int')
def int_fit_int(self):
    return self._fit_interleaved


@of('InterleavedRBFitter.seeds')
def int_seeds(self):
    return [self._rbfit_original._nseeds, self._rbfit_interleaved._nseeds]


@of('InterleavedRBFitter.results')
def int_results(self):
    return [self._rbfit_original._result_list, self._rbfit_interleaved._result_list]


@of('InterleavedRBFitter.ydata')
def int_ydata(self):
    return [self._rbfit_original._ydata, self._rbfit_interleaved._ydata]


@of('InterleavedRBFitter.raw_data')
def int_raw(self):
    return [self._rbfit_original._raw_data, self._rbfit_interleaved._raw_data]


@of('InterleavedRBFitter.cliff_lengths')
def int_lengths(self):
    return self._cliff_lengths


@of('InterleavedRBFitter.add_data', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.add_data',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.InterleavedRBFitter.fit_data'))
def int_add(self, new_original_result, new_interleaved_result, rerun_fit=True):
    self._rbfit_original.add_data(new_original_result, rerun_fit)
    self._rbfit_interleaved.add_data(new_interleaved_result, rerun_fit)
    if rerun_fit:
        self.fit_data()


@of('InterleavedRBFitter.calc_data', ret=False, no_inline=NI)
def int_calc(self):
    self._rbfit_original.calc_data()
    self._rbfit_interleaved.calc_data()


@of('InterleavedRBFitter.calc_statistics', ret=False, no_inline=NI)
def int_stat(self):
    self._rbfit_original.calc_statistics()
    self._rbfit_interleaved.calc_statistics()


@of('InterleavedRBFitter.fit_data_pattern', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.fit_data_pattern',))
def int_pattern(self, patt_ind, fit_guess, fit_index=0):
    if fit_index == 0:
        self._rbfit_original.fit_data_pattern(patt_ind, fit_guess)
    else:
        self._rbfit_interleaved.fit_data_pattern(patt_ind, fit_guess)


@of('PurityRBFitter.__init__', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.__init__',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.PurityRBFitter.add_data',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.PurityRBFitter.add_zdict_ops'))
def pur_init(self, purity_result, npurity, cliff_lengths, rb_pattern=None):
    if rb_pattern is None:
        rb_pattern = [[0]]
    self._cliff_lengths = cliff_lengths
    self._rb_pattern = rb_pattern
    self._npurity = npurity
    self._nq = len(rb_pattern[0])
    self._fit = [{} for _ in rb_pattern]
    self._circ_name_type = ''
    self._zdict_ops = []
    self.add_zdict_ops()
    self._rbfit_purity = RBFitter(None, cliff_lengths, rb_pattern)
    self.add_data(purity_result)


@of('PurityRBFitter.add_data', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.add_data',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.PurityRBFitter.calc_data',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.PurityRBFitter.calc_statistics',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.PurityRBFitter.fit_data'))
def pur_add(self, new_purity_result, rerun_fit=True):
    if new_purity_result is None:
        return
    self._rbfit_purity.add_data(new_purity_result, rerun_fit)
    if rerun_fit:
        self.calc_data()
        self.calc_statistics()
        self.fit_data()


@of('PurityRBFitter.calc_data', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.PurityRBFitter.F234',))
def pur_calc(self):
    """The purity is the mean square of all 4^n Pauli correlators, each averaged over the
    measurement settings that contain it."""
    circ_counts = {}
    number = 0
    for seed in self._rbfit_purity._nseeds:
        for pur in range(self._npurity):
            self._circ_name_type = self._rbfit_purity._result_list[number].results[0] \
                .header.name.split("_length")[0]
            number += 1
            for circ, _ in enumerate(self._cliff_lengths[0]):
                label = self._circ_name_type + '_length_%d_seed_%d' % (circ, seed)
                count_list = []
                for result in self._rbfit_purity._result_list:
                    try:
                        count_list.append(result.get_counts(label))
                    except (QiskitError, KeyError):
                        pass
                key = 'rb_purity_' + str(pur) + '_length_%d_seed_%d' % (circ, seed)
                circ_counts[key] = build_counts_dict_from_list(count_list)
    self._rbfit_purity.raw_data = []
    first = 0
    for patt_ind, _ in enumerate(self._rb_pattern):
        end = first + len(self._rb_pattern[patt_ind])
        self._rbfit_purity._raw_data.append([])
        for seedidx, seed in enumerate(self._rbfit_purity._nseeds):
            self._rbfit_purity._raw_data[-1].append([])
            for k, _ in enumerate(self._cliff_lengths[0]):
                corr = [0] * (4 ** self._nq)
                times = [0] * (4 ** self._nq)
                for pur in range(self._npurity):
                    key = 'rb_purity_' + str(pur) + '_length_%d_seed_%d' % (k, seed)
                    counts = marginal_counts(circ_counts[key], np.arange(first, end))
                    for indcorr in range(2 ** self._nq):
                        zcorr = average_data(counts, self._zdict_ops[indcorr])
                        zind = self.F234(self._nq, indcorr, pur)
                        corr[zind] += zcorr
                        times[zind] += 1
                purity = 0
                for idx, _ in enumerate(corr):
                    purity += (corr[idx]/times[idx]) ** 2
                purity = purity / (2 ** self._nq)
                self._rbfit_purity._raw_data[-1][seedidx].append(purity)
        first = end


@of('PurityRBFitter.calc_statistics', ret=False, no_inline=NI)
def pur_stat(self):
    self._rbfit_purity.calc_statistics()


@of('PurityRBFitter.fit_data_pattern', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.fit_data_pattern',))
def pur_pattern(self, patt_ind, fit_guess):
    self._rbfit_purity.fit_data_pattern(patt_ind, fit_guess)


@of('PurityRBFitter.fit')
def pur_fit(self):
    return self._rbfit_purity._fit


@of('PurityRBFitter.seeds')
def pur_seeds(self):
    return self._rbfit_purity._nseeds


@of('PurityRBFitter.results')
def pur_results(self):
    return self._rbfit_purity._result_list


@of('PurityRBFitter.ydata')
def pur_ydata(self):
    return self._rbfit_purity._ydata


@of('PurityRBFitter.raw_data')
def pur_raw(self):
    return self._rbfit_purity._raw_data


@of('CNOTDihedralRBFitter.__init__', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.__init__',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.CNOTDihedralRBFitter.fit_data'))
def dih_init(self, cnotdihedral_Z_result, cnotdihedral_X_result, elmnts_lengths,
             rb_pattern=None):
    if rb_pattern is None:
        rb_pattern = [[0]]
    self._cliff_lengths = elmnts_lengths
    self._rb_pattern = rb_pattern
    self._fit_cnotdihedral = []
    self._rbfit_Z = RBFitter(cnotdihedral_Z_result, elmnts_lengths, rb_pattern)
    self._rbfit_X = RBFitter(cnotdihedral_X_result, elmnts_lengths, rb_pattern)
    if not (cnotdihedral_Z_result is None and cnotdihedral_X_result is None):
        self.fit_data()


@of('CNOTDihedralRBFitter.add_data', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.add_data',
               'qiskit.ignis.verification.randomized_benchmarking.fitters.CNOTDihedralRBFitter.fit_data'))
def dih_add(self, new_cnotdihedral_Z_result, new_cnotdihedral_X_result, rerun_fit=True):
    self._rbfit_Z.add_data(new_cnotdihedral_Z_result, rerun_fit)
    self._rbfit_X.add_data(new_cnotdihedral_X_result, rerun_fit)
    if rerun_fit:
        self.fit_data()


@of('CNOTDihedralRBFitter.calc_data', ret=False, no_inline=NI)
def dih_calc(self):
    self._rbfit_Z.calc_data()
    self._rbfit_X.calc_data()


@of('CNOTDihedralRBFitter.calc_statistics', ret=False, no_inline=NI)
def dih_stat(self):
    self._rbfit_Z.calc_statistics()
    self._rbfit_X.calc_statistics()


@of('CNOTDihedralRBFitter.fit_data_pattern', ret=False,
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.fit_data_pattern',))
def dih_pattern(self, patt_ind, fit_guess, fit_index=0):
    if fit_index == 0:
        self._rbfit_Z.fit_data_pattern(patt_ind, fit_guess)
    else:
        self._rbfit_X.fit_data_pattern(patt_ind, fit_guess)


@of('CNOTDihedralRBFitter.fit')
def dih_fit(self):
    return [self._rbfit_Z._fit, self._rbfit_X._fit]


@of('CNOTDihedralRBFitter.seeds')
def dih_seeds(self):
    return [self._rbfit_Z._nseeds, self._rbfit_X._nseeds]


@of('CNOTDihedralRBFitter.results')
def dih_results(self):
    return [self._rbfit_Z._result_list, self._rbfit_X._result_list]


@of('CNOTDihedralRBFitter.ydata')
def dih_ydata(self):
    return [self._rbfit_Z._ydata, self._rbfit_X._ydata]


@of('CNOTDihedralRBFitter.raw_data')
def dih_raw(self):
    return [self._rbfit_Z._raw_data, self._rbfit_X._raw_data]


# ---------------------------------------------------------------- quantum volume

@of('QVFitter.__init__', ret=False,
    no_inline=('qiskit.ignis.verification.quantum_volume.fitters.QVFitter.add_statevectors',
               'qiskit.ignis.verification.quantum_volume.fitters.QVFitter.add_data'))
def qv_init(self, backend_result=None, statevector_result=None, qubit_lists=None):
    self._qubit_lists = qubit_lists
    self._depths = [len(qubit_list) for qubit_list in qubit_lists]
    self._ntrials = 0
    self._result_list = []
    self._heavy_output_counts = {}
    self._circ_shots = {}
    self._circ_counts = {}
    self._all_output_prob_ideal = {}
    self._heavy_output_prob_ideal = {}
    self._heavy_output_prob_exp = {}
    self._ydata = []
    self._heavy_outputs = {}
    self.add_statevectors(statevector_result)
    self.add_data(backend_result)


QVNI = ('qiskit.ignis.verification.quantum_volume.fitters.QVFitter._median_probabilities',
        'qiskit.ignis.verification.quantum_volume.fitters.QVFitter._heavy_strings',
        'qiskit.ignis.verification.quantum_volume.fitters.QVFitter._subset_probability')


@of('QVFitter.add_statevectors', ret=False, no_inline=QVNI)
def qv_statevectors(self, new_statevector_result):
    """Ideal probabilities and heavy outputs of every new circuit; a circuit is added once."""
    if new_statevector_result is None:
        return
    if not isinstance(new_statevector_result, list):
        new_statevector_result = [new_statevector_result]
    for result in new_statevector_result:
        for qvcirc in result.results:
            name = qvcirc.header.name
            depth = int(name.split('_')[2])
            if name in self._heavy_outputs:
                raise QiskitError
            qstate = result.get_statevector(name)
            pvector = np.multiply(qstate, qstate.conjugate())
            spec = "{0:0%db}" % depth
            self._all_output_prob_ideal[name] = \
                {spec.format(b): float(np.real(pvector[b])) for b in range(2**depth)}
            median = self._median_probabilities([self._all_output_prob_ideal[name]])
            self._heavy_outputs[name] = \
                self._heavy_strings(self._all_output_prob_ideal[name], median[0])
            self._heavy_output_prob_ideal[name] = self._subset_probability(
                self._heavy_outputs[name], self._all_output_prob_ideal[name])


@of('QVFitter.add_data', ret=False,
    no_inline=('qiskit.ignis.verification.quantum_volume.fitters.QVFitter.calc_data',
               'qiskit.ignis.verification.quantum_volume.fitters.QVFitter.calc_statistics'))
def qv_add(self, new_backend_result, rerun_fit=True):
    if new_backend_result is None:
        return
    if not isinstance(new_backend_result, list):
        new_backend_result = [new_backend_result]
    for result in new_backend_result:
        self._result_list.append(result)
        for qvcirc in result.results:
            trial = int(qvcirc.header.name.split('_')[-1])
            if trial + 1 > self._ntrials:
                self._ntrials = trial + 1
            if qvcirc.header.name not in self._heavy_output_prob_ideal:
                raise QiskitError
    if rerun_fit:
        self.calc_data()
        self.calc_statistics()


@of('QVFitter.calc_data', ret=False, no_inline=QVNI)
def qv_calc(self):
    for trial in range(self._ntrials):
        for depth in self._depths:
            name = 'qv_depth_%d_trial_%d' % (depth, trial)
            count_list = []
            for result in self._result_list:
                try:
                    count_list.append(result.get_counts(name))
                except (QiskitError, KeyError):
                    pass
            self._circ_counts[name] = build_counts_dict_from_list(count_list)
            self._circ_shots[name] = sum(self._circ_counts[name].values())
            self._heavy_output_counts[name] = self._subset_probability(
                self._heavy_outputs[name], self._circ_counts[name])
            self._heavy_output_prob_exp[name] = \
                self._heavy_output_counts[name]/self._circ_shots[name]


@of('QVFitter.depths')
def qv_depths(self):
    return self._depths


@of('QVFitter.ydata')
def qv_ydata(self):
    return self._ydata


@of('QVFitter.heavy_outputs')
def qv_heavy(self):
    return self._heavy_outputs


@of('QVFitter.heavy_output_counts')
def qv_heavy_counts(self):
    return self._heavy_output_counts


@of('QVFitter.heavy_output_prob_ideal')
def qv_heavy_prob(self):
    return self._heavy_output_prob_ideal


# ---------------------------------------------------------------- characterization

@of('BaseFitter.add_data', ret=False,
    no_inline=('qiskit.ignis.characterization.fitters.BaseFitter._calc_data',
               'qiskit.ignis.characterization.fitters.BaseFitter.fit_data'))
def char_add(self, results, recalc=True, refit=True):
    if isinstance(results, list):
        for result in results:
            self._backend_result_list.append(result)
    else:
        self._backend_result_list.append(results)
    if recalc:
        self._calc_data()
    if refit:
        self.fit_data()


@of('BaseFitter.backend_result')
def char_results(self):
    return self._backend_result_list


@of('BaseFitter.ydata')
def char_ydata(self):
    return self._ydata


@of('BaseFitter.xdata')
def char_xdata(self):
    return self._xdata


@of('BaseFitter.params')
def char_params(self):
    return self._params


@of('BaseFitter.params_err')
def char_params_err(self):
    return self._params_err


# ---------------------------------------------------------------- gate counts

@of('rb_utils.count_gates')
def count_gates(qobj, basis, qubits):
    """Every instruction of the basis is counted once for each listed qubit it acts on."""
    nexp = len(qobj.experiments)
    ngates = np.zeros([nexp, len(qubits), len(basis)], dtype=int)
    index = {basis[i]: i for i in range(len(basis))}
    for i in range(nexp):
        for instr in qobj.experiments[i].instructions:
            if instr.name in basis:
                for qind, qubit in enumerate(qubits):
                    if qubit in instr.qubits:
                        ngates[i][qind][index[instr.name]] += 1
    return ngates
