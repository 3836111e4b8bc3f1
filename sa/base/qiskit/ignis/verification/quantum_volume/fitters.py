import math
import warnings
import numpy as np
from qiskit import QiskitError
from qiskit.visualization import plot_histogram
from ...utils import build_counts_dict_from_list
try:
    from matplotlib import get_backend
    from matplotlib import pyplot as plt
    from matplotlib.patches import Rectangle
    HAS_MATPLOTLIB = True
except ImportError:
    HAS_MATPLOTLIB = False

class QVFitter:

    def __init__(self, backend_result=None, statevector_result=None, qubit_lists=None):
        self._qubit_lists = qubit_lists
        self._depths = [len(qubit_list) for qubit_list in qubit_lists]
        self._ntrials = 0
        self._result_list = []
        self._heavy_output_counts = {}
        self._circ_shots = {}
        self._circ_counts = {}
        self._all_output_prob_ideal = {}
        self._heavy_output_prob_ideal = {}
        self._heavy_output_prob_exp = {}
        self._ydata = []
        self._heavy_outputs = {}
        self.add_statevectors(statevector_result)
        self.add_data(backend_result)

    @property
    def depths(self):
        return self._depths

    @property
    def qubit_lists(self):
        return self._qubit_lists

    @property
    def results(self):
        return self._result_list

    @property
    def heavy_outputs(self):
        return self._heavy_outputs

    @property
    def heavy_output_counts(self):
        return self._heavy_output_counts

    @property
    def heavy_output_prob_ideal(self):
        return self._heavy_output_prob_ideal

    @property
    def ydata(self):
        return self._ydata

    def add_statevectors(self, new_statevector_result):
        if new_statevector_result is None:
            return
        if not isinstance(new_statevector_result, list):
            new_statevector_result = [new_statevector_result]
        for result in new_statevector_result:
            for qvcirc in result.results:
                circ_name = qvcirc.header.name
                depth = int(circ_name.split('_')[2])
                if circ_name in self._heavy_outputs:
                    raise QiskitError('Already added the ideal result for circuit %s' % circ_name)
                qstate = result.get_statevector(circ_name)
                pvector = np.multiply(qstate, qstate.conjugate())
                format_spec = '{0:0%db}' % depth
                self._all_output_prob_ideal[circ_name] = {format_spec.format(b): float(np.real(pvector[b])) for b in range(2 ** depth)}
                median_prob = self._median_probabilities([self._all_output_prob_ideal[circ_name]])
                self._heavy_outputs[circ_name] = self._heavy_strings(self._all_output_prob_ideal[circ_name], median_prob[0])
                self._heavy_output_prob_ideal[circ_name] = self._subset_probability(self._heavy_outputs[circ_name], self._all_output_prob_ideal[circ_name])

    def add_data(self, new_backend_result, rerun_fit=True):
        if new_backend_result is None:
            return
        if not isinstance(new_backend_result, list):
            new_backend_result = [new_backend_result]
        for result in new_backend_result:
            self._result_list.append(result)
            for qvcirc in result.results:
                ntrials_circ = int(qvcirc.header.name.split('_')[-1])
                if ntrials_circ + 1 > self._ntrials:
                    self._ntrials = ntrials_circ + 1
                if qvcirc.header.name not in self._heavy_output_prob_ideal:
                    raise QiskitError('Ideal distribution must be loaded first')
        if rerun_fit:
            self.calc_data()
            self.calc_statistics()

    def calc_data(self):
        for trialidx in range(self._ntrials):
            for _, depth in enumerate(self._depths):
                circ_name = 'qv_depth_%d_trial_%d' % (depth, trialidx)
                count_list = []
                for result in self._result_list:
                    try:
                        count_list.append(result.get_counts(circ_name))
                    except (QiskitError, KeyError):
                        pass
                self._circ_counts[circ_name] = build_counts_dict_from_list(count_list)
                self._circ_shots[circ_name] = sum(self._circ_counts[circ_name].values())
                self._heavy_output_counts[circ_name] = self._subset_probability(self._heavy_outputs[circ_name], self._circ_counts[circ_name])
                self._heavy_output_prob_exp[circ_name] = self._heavy_output_counts[circ_name] / self._circ_shots[circ_name]
                self._heavy_output_prob_exp[circ_name] = self._heavy_output_counts[circ_name] / self._circ_shots[circ_name]

    def calc_statistics(self):
        self._ydata = np.zeros([4, len(self._depths)], dtype=float)
        exp_vals = np.zeros(self._ntrials, dtype=float)
        ideal_vals = np.zeros(self._ntrials, dtype=float)
        for depthidx, depth in enumerate(self._depths):
            exp_shots = 0
            for trialidx in range(self._ntrials):
                cname = 'qv_depth_%d_trial_%d' % (depth, trialidx)
                exp_vals[trialidx] = self._heavy_output_counts[cname]
                exp_shots += self._circ_shots[cname]
                ideal_vals[trialidx] = self._heavy_output_prob_ideal[cname]
            self._ydata[0][depthidx] = np.sum(exp_vals) / np.sum(exp_shots)
            self._ydata[1][depthidx] = (self._ydata[0][depthidx] * (1.0 - self._ydata[0][depthidx]) / self._ntrials) ** 0.5
            self._ydata[2][depthidx] = np.mean(ideal_vals)
            self._ydata[3][depthidx] = (self._ydata[2][depthidx] * (1.0 - self._ydata[2][depthidx]) / self._ntrials) ** 0.5

    def plot_qv_data(self, ax=None, show_plt=True, figsize=(7, 5), set_title=True, title=None):
        if not HAS_MATPLOTLIB:
            raise ImportError('The function plot_rb_data needs matplotlib. Run "pip install matplotlib" before.')
        if ax is None:
            fig, ax = plt.subplots(figsize=figsize)
        else:
            fig = None
        xdata = range(len(self._depths))
        ax.errorbar(xdata, self._ydata[0], yerr=self._ydata[1] * 2, color='r', marker='o', markersize=6, capsize=5, elinewidth=2, label='Exp (2$\\sigma$ error)')
        ax.errorbar(xdata, self._ydata[2], yerr=self._ydata[3] * 2, color='b', marker='v', markersize=6, capsize=5, elinewidth=2, label='Ideal (2$\\sigma$ error)')
        ax.axhline(2 / 3, color='k', linestyle='dashed', linewidth=1, label='Threshold')
        ax.set_xticks(xdata)
        ax.set_xticklabels(self._qubit_lists, rotation=45)
        ax.set_xlabel('Qubit Subset', fontsize=14)
        ax.set_ylabel('Heavy Output Probability', fontsize=14)
        ax.grid(True)
        ax.legend()
        if set_title:
            if title is None:
                title = f'Quantum Volume for up to {len(self._qubit_lists[-1])} Qubits and {self._ntrials} Trials'
            ax.set_title(title)
        if fig:
            if get_backend() in ['module://ipykernel.pylab.backend_inline', 'nbAgg']:
                plt.close(fig)
        if show_plt:
            plt.show()
        return fig

    def plot_qv_trial(self, depth, trial_index, figsize=(7, 5), ax=None):
        if not HAS_MATPLOTLIB:
            raise ImportError('The function plot_qv_trial needs matplotlib. Run "pip install matplotlib" before.')
        circ_name = f'qv_depth_{depth}_trial_{trial_index}'
        ideal_data = self._all_output_prob_ideal[circ_name]
        exp_data = self._circ_counts[circ_name]
        if ax is None:
            fig, ax = plt.subplots(figsize=figsize)
        else:
            fig = None
        plot_histogram(exp_data, legend=['Exp'], ax=ax)
        plot_histogram(ideal_data, legend=['Ideal'], bar_labels=False, ax=ax, color='r')
        bars = [r for r in ax.get_children() if isinstance(r, Rectangle)]
        for i in range(int(len(bars) / 2), len(bars) - 1):
            bars[i].fill = False
            bars[i].set_edgecolor('saddlebrown')
        ax.plot([], [], ' ', label=f'HOP~{self._heavy_output_prob_exp[circ_name]:.3f}')
        median_prob = self._median_probabilities([self._all_output_prob_ideal[circ_name]])
        ax.axhline(median_prob, color='r', linestyle='dashed', linewidth=1, label='Median')
        ax.legend()
        ax.set_title(f'Quantum Volume {2 ** depth}, Trial #{trial_index}', fontsize=14)
        if fig and get_backend() in ['module://ipykernel.pylab.backend_inline', 'nbAgg']:
            plt.close(fig)
        return fig

    def plot_hop_accumulative(self, depth, ax=None, figsize=(7, 5)):
        if not HAS_MATPLOTLIB:
            raise ImportError('The function plot_hop_accumulative needs matplotlib. Run "pip install matplotlib" before.')
        if ax is None:
            fig, ax = plt.subplots(figsize=figsize)
        else:
            fig = None
        trial_list = np.arange(self._ntrials)
        hop_list = []
        for trial_index in range(self._ntrials):
            circ_name = f'qv_depth_{depth}_trial_{trial_index}'
            hop_list.append(self._heavy_output_prob_exp[circ_name])
        hop_accumulative = np.cumsum(hop_list) / np.arange(1, self._ntrials + 1)
        two_sigma = 2 * (hop_accumulative * (1 - hop_accumulative) / np.arange(1, self._ntrials + 1)) ** 0.5
        ax.errorbar(trial_list, hop_accumulative, fmt='none', yerr=two_sigma, ecolor='lightgray', elinewidth=20, capsize=0, alpha=0.5, label='2$\\sigma$')
        ax.plot(trial_list, hop_accumulative, color='r', label='Cumulative HOP')
        ax.scatter(trial_list, hop_list, s=3, zorder=3, label='Individual HOP')
        ax.axhline(2 / 3, color='k', linestyle='dashed', linewidth=1, label='Threshold')
        ax.set_xlim(0, self._ntrials)
        ax.set_ylim(hop_accumulative[-1] - 4 * two_sigma[-1], hop_accumulative[-1] + 4 * two_sigma[-1])
        ax.set_xlabel('Number of Trials', fontsize=14)
        ax.set_ylabel('Heavy Output Probability', fontsize=14)
        ax.set_title(f'Quantum Volume {2 ** depth} Trials', fontsize=14)
        handles, labels = ax.get_legend_handles_labels()
        handles = [handles[1], handles[2], handles[0], handles[3]]
        labels = [labels[1], labels[2], labels[0], labels[3]]
        ax.legend(handles, labels)
        if fig:
            if get_backend() in ['module://ipykernel.pylab.backend_inline', 'nbAgg']:
                plt.close(fig)
        return fig

    def qv_success(self):
        success_list = []
        confidence_level_threshold = self.calc_confidence_level(z_value=2)
        for depth_ind, _ in enumerate(self._depths):
            success_list.append([False, 0.0])
            hmean = self._ydata[0][depth_ind]
            sigma = self._ydata[1][depth_ind]
            z_value = self.calc_z_value(hmean, sigma)
            confidence_level = self.calc_confidence_level(z_value)
            success_list[-1][1] = confidence_level
            if hmean > 2 / 3 and confidence_level > confidence_level_threshold:
                success_list[-1][0] = True
        return success_list

    def calc_z_value(self, mean, sigma):
        if sigma == 0:
            sigma = 1e-10
            warnings.warn('Standard deviation sigma should not be zero.')
        z_value = (mean - 2 / 3) / sigma
        return z_value

    def calc_confidence_level(self, z_value):
        confidence_level = 0.5 * (1 + math.erf(z_value / 2 ** 0.5))
        return confidence_level

    def quantum_volume(self):
        qv_list = 2 ** np.array(self._depths)
        return qv_list

    def _heavy_strings(self, ideal_distribution, ideal_median):
        return list(filter(lambda x: ideal_distribution[x] > ideal_median, list(ideal_distribution.keys())))

    def _median_probabilities(self, distributions):
        medians = []
        for dist in distributions:
            values = np.array(list(dist.values()))
            medians.append(float(np.real(np.median(values))))
        return medians

    def _subset_probability(self, strings, distribution):
        return sum([distribution.get(value, 0) for value in strings])
