from typing import List, Union
import copy
import re
import numpy as np
from qiskit import QiskitError
from qiskit.result import Result
from qiskit.ignis.verification.tomography import count_keys
from .filters import MeasurementFilter, TensoredFilter
try:
    from matplotlib import pyplot as plt
    HAS_MATPLOTLIB = True
except ImportError:
    HAS_MATPLOTLIB = False

class CompleteMeasFitter:

    def __init__(self, results: Union[Result, List[Result]], state_labels: List[str], qubit_list: List[int]=None, circlabel: str=''):
        if qubit_list is None:
            qubit_list = range(len(state_labels[0]))
        self._qubit_list = qubit_list
        self._tens_fitt = TensoredMeasFitter(results, [qubit_list], [state_labels], circlabel)

    @property
    def cal_matrix(self):
        return self._tens_fitt.cal_matrices[0]

    @cal_matrix.setter
    def cal_matrix(self, new_cal_matrix):
        self._tens_fitt.cal_matrices = [copy.deepcopy(new_cal_matrix)]

    @property
    def state_labels(self):
        return self._tens_fitt.substate_labels_list[0]

    @property
    def qubit_list(self):
        return self._qubit_list

    @state_labels.setter
    def state_labels(self, new_state_labels):
        self._tens_fitt.substate_labels_list[0] = new_state_labels

    @property
    def filter(self):
        return MeasurementFilter(self.cal_matrix, self.state_labels)

    def add_data(self, new_results, rebuild_cal_matrix=True):
        self._tens_fitt.add_data(new_results, rebuild_cal_matrix)

    def subset_fitter(self, qubit_sublist=None):
        if self._tens_fitt.cal_matrices is None:
            raise QiskitError('Calibration matrix is not initialized')
        if qubit_sublist is None:
            raise QiskitError('Qubit sublist must be specified')
        for qubit in qubit_sublist:
            if qubit not in self._qubit_list:
                raise QiskitError('Qubit not in the original set of qubits')
        new_state_labels = count_keys(len(qubit_sublist))
        qubit_sublist_ind = []
        for sqb in qubit_sublist:
            for qbind, qubit in enumerate(self._qubit_list):
                if qubit == sqb:
                    qubit_sublist_ind.append(qbind)
        q_q_mapping = []
        state_labels_reduced = []
        for label in self.state_labels:
            tmplabel = [label[-1 - index] for index in reversed(qubit_sublist_ind)]
            state_labels_reduced.append(''.join(tmplabel))
        for sub_lab_ind, _ in enumerate(new_state_labels):
            q_q_mapping.append([])
            for labelind, label in enumerate(state_labels_reduced):
                if label == new_state_labels[sub_lab_ind]:
                    q_q_mapping[-1].append(labelind)
        new_fitter = CompleteMeasFitter(results=None, state_labels=new_state_labels, qubit_list=qubit_sublist)
        new_cal_matrix = np.zeros([len(new_state_labels), len(new_state_labels)])
        for i in range(len(new_state_labels)):
            for j in range(len(new_state_labels)):
                for q_q_i_map in q_q_mapping[i]:
                    for q_q_j_map in q_q_mapping[j]:
                        new_cal_matrix[i, j] += self.cal_matrix[q_q_i_map, q_q_j_map]
                new_cal_matrix[i, j] /= len(q_q_mapping[i])
        new_fitter.cal_matrix = new_cal_matrix
        return new_fitter

    def readout_fidelity(self, label_list=None):
        return self._tens_fitt.readout_fidelity(0, label_list)

    def plot_calibration(self, ax=None, show_plot=True):
        self._tens_fitt.plot_calibration(0, ax, show_plot)

class TensoredMeasFitter:

    def __init__(self, results: Union[Result, List[Result]], mit_pattern: List[List[int]], substate_labels_list: List[List[str]]=None, circlabel: str=''):
        self._result_list = []
        self._cal_matrices = None
        self._circlabel = circlabel
        self._qubit_list_sizes = [len(qubit_list) for qubit_list in mit_pattern]
        self._indices_list = []
        if substate_labels_list is None:
            self._substate_labels_list = []
            for list_size in self._qubit_list_sizes:
                self._substate_labels_list.append(count_keys(list_size))
        else:
            self._substate_labels_list = substate_labels_list
            if len(self._qubit_list_sizes) != len(substate_labels_list):
                raise ValueError('mit_pattern does not match                     substate_labels_list')
        self._indices_list = []
        for _, sub_labels in enumerate(self._substate_labels_list):
            self._indices_list.append({lab: ind for ind, lab in enumerate(sub_labels)})
        self.add_data(results)

    @property
    def cal_matrices(self):
        return self._cal_matrices

    @cal_matrices.setter
    def cal_matrices(self, new_cal_matrices):
        self._cal_matrices = copy.deepcopy(new_cal_matrices)

    @property
    def substate_labels_list(self):
        return self._substate_labels_list

    @property
    def filter(self):
        return TensoredFilter(self._cal_matrices, self._substate_labels_list)

    @property
    def nqubits(self):
        return sum(self._qubit_list_sizes)

    def add_data(self, new_results, rebuild_cal_matrix=True):
        if new_results is None:
            return
        if not isinstance(new_results, list):
            new_results = [new_results]
        for result in new_results:
            self._result_list.append(result)
        if rebuild_cal_matrix:
            self._build_calibration_matrices()

    def readout_fidelity(self, cal_index=0, label_list=None):
        if self._cal_matrices is None:
            raise QiskitError('Cal matrix has not been set')
        if label_list is None:
            label_list = [[label] for label in self._substate_labels_list[cal_index]]
        state_labels = self._substate_labels_list[cal_index]
        fidelity_label_list = []
        if label_list is None:
            fidelity_label_list = [[label] for label in state_labels]
        else:
            for fid_sublist in label_list:
                fidelity_label_list.append([])
                for fid_statelabl in fid_sublist:
                    for label_idx, label in enumerate(state_labels):
                        if fid_statelabl == label:
                            fidelity_label_list[-1].append(label_idx)
                            continue
        assign_fid_list = []
        for fid_label_sublist in fidelity_label_list:
            assign_fid_list.append(0)
            for state_idx_i in fid_label_sublist:
                for state_idx_j in fid_label_sublist:
                    assign_fid_list[-1] += self._cal_matrices[cal_index][state_idx_i][state_idx_j]
            assign_fid_list[-1] /= len(fid_label_sublist)
        return np.mean(assign_fid_list)

    def _build_calibration_matrices(self):
        self._cal_matrices = []
        for list_size in self._qubit_list_sizes:
            self._cal_matrices.append(np.zeros([2 ** list_size, 2 ** list_size], dtype=float))
        for result in self._result_list:
            for experiment in result.results:
                circ_name = experiment.header.name
                circ_search = re.search('(?<=' + self._circlabel + 'cal_)\\w+', circ_name)
                if circ_search is None:
                    continue
                state = circ_search.group(0)
                state_cnts = result.get_counts(circ_name)
                for measured_state, counts in state_cnts.items():
                    end_index = self.nqubits
                    for cal_ind, cal_mat in enumerate(self._cal_matrices):
                        start_index = end_index - self._qubit_list_sizes[cal_ind]
                        substate_index = self._indices_list[cal_ind][state[start_index:end_index]]
                        measured_substate_index = self._indices_list[cal_ind][measured_state[start_index:end_index]]
                        end_index = start_index
                        cal_mat[measured_substate_index][substate_index] += counts
        for mat_index, _ in enumerate(self._cal_matrices):
            sums_of_columns = np.sum(self._cal_matrices[mat_index], axis=0)
            self._cal_matrices[mat_index] = np.divide(self._cal_matrices[mat_index], sums_of_columns, out=np.zeros_like(self._cal_matrices[mat_index]), where=sums_of_columns != 0)

    def plot_calibration(self, cal_index=0, ax=None, show_plot=True):
        if self._cal_matrices is None:
            raise QiskitError('Cal matrix has not been set')
        if not HAS_MATPLOTLIB:
            raise ImportError('The function plot_rb_data needs matplotlib. Run "pip install matplotlib" before.')
        if ax is None:
            plt.figure()
            ax = plt.gca()
        axim = ax.matshow(self.cal_matrices[cal_index], cmap=plt.cm.binary, clim=[0, 1])
        ax.figure.colorbar(axim)
        ax.set_xlabel('Prepared State')
        ax.xaxis.set_label_position('top')
        ax.set_ylabel('Measured State')
        ax.set_xticks(np.arange(len(self._substate_labels_list[cal_index])))
        ax.set_yticks(np.arange(len(self._substate_labels_list[cal_index])))
        ax.set_xticklabels(self._substate_labels_list[cal_index])
        ax.set_yticklabels(self._substate_labels_list[cal_index])
        if show_plot:
            plt.show()
