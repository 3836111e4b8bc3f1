import copy
import re
import numpy as np
from qiskit import QuantumRegister, ClassicalRegister, QuantumCircuit
from qiskit.ignis.verification.tomography import count_keys
from qiskit.ignis.mitigation.measurement.circuits import tensored_meas_cal as real_tensored
from qiskit.ignis.mitigation.measurement.fitters import TensoredMeasFitter, CompleteMeasFitter
from qiskit.ignis.mitigation.measurement.filters import MeasurementFilter, TensoredFilter


@of('measurement.circuits.complete_meas_cal',
    no_inline=('qiskit.ignis.mitigation.measurement.circuits.tensored_meas_cal',
               'qiskit.ignis.verification.tomography.data.count_keys'))
def complete_meas_cal(qubit_list=None, qr=None, cr=None, circlabel=''):
    """The 2^n basis states of the listed qubits, in increasing binary order."""
    if qubit_list is None and qr is None:
        raise ValueError
    if qr is None:
        qr = QuantumRegister(max(qubit_list) + 1)
    if isinstance(qr, int):
        qr = QuantumRegister(qr)
    if qubit_list is None:
        qubit_list = range(len(qr))
    if isinstance(cr, int):
        cr = ClassicalRegister(cr)
    circuits, _ = real_tensored([qubit_list], qr, cr, circlabel)
    return circuits, count_keys(len(qubit_list))


@of('measurement.circuits.tensored_meas_cal')
def tensored_meas_cal(mit_pattern=None, qr=None, cr=None, circlabel=''):
    """Group g of the pattern is read from the right of the label (little endian); state k
    prepares, in every group, the first bits of the k-th state of the largest group; classical
    bits are numbered along the concatenated groups."""
    if mit_pattern is None and qr is None:
        raise ValueError
    if isinstance(qr, int):
        qr = QuantumRegister(qr)
    qubits_in_pattern = []
    if mit_pattern is not None:
        for group in mit_pattern:
            for qubit in group:
                if qubit in qubits_in_pattern:
                    raise ValueError
                qubits_in_pattern.append(qubit)
        if qr is None:
            qr = QuantumRegister(max(qubits_in_pattern) + 1)
    else:
        qubits_in_pattern = range(len(qr))
        mit_pattern = [qubits_in_pattern]
    if cr is None:
        cr = ClassicalRegister(len(qubits_in_pattern))
    if isinstance(cr, int):
        cr = ClassicalRegister(cr)
    sizes = [len(group) for group in mit_pattern]
    total = sum(sizes)
    labels = []
    for state in count_keys(max(sizes)):
        label = ''
        for size in sizes:
            label = state[:size] + label
        labels.append(label)
    circuits = []
    for label in labels:
        circ = QuantumCircuit(qr, cr, name='%scal_%s' % (circlabel, label))
        end = total
        for group, size in zip(mit_pattern, sizes):
            sub = label[end - size:end]
            for k in range(size):
                if sub[size - k - 1] == '1':
                    circ.x(qr[group[k]])
            end = end - size
        circ.barrier(qr)
        end = total
        for group, size in zip(mit_pattern, sizes):
            for k in range(size):
                circ.measure(qr[group[k]], cr[total - (end - k)])
            end = end - size
        circuits.append(circ)
    return circuits, mit_pattern


@of('tomography.data.count_keys')
def keys(num_qubits):
    return [bin(j)[2:].zfill(num_qubits) for j in range(2**num_qubits)]


@of('CompleteMeasFitter.__init__', ret=False,
    no_inline=('qiskit.ignis.mitigation.measurement.fitters.TensoredMeasFitter.__init__',
               'TensoredMeasFitter'))
def complete_init(self, results, state_labels, qubit_list=None, circlabel=''):
    if qubit_list is None:
        qubit_list = range(len(state_labels[0]))
    self._qubit_list = qubit_list
    self._tens_fitt = TensoredMeasFitter(results, [qubit_list], [state_labels], circlabel)


@of('CompleteMeasFitter.cal_matrix')
def complete_cal_matrix(self):
    return self._tens_fitt.cal_matrices[0]


@of('CompleteMeasFitter.state_labels')
def complete_state_labels(self):
    return self._tens_fitt.substate_labels_list[0]


@of('CompleteMeasFitter.qubit_list')
def complete_qubit_list(self):
    return self._qubit_list


@of('CompleteMeasFitter.filter', no_inline=('MeasurementFilter',))
def complete_filter(self):
    return MeasurementFilter(self._tens_fitt.cal_matrices[0],
                             self._tens_fitt.substate_labels_list[0])


@of('CompleteMeasFitter.add_data',
    no_inline=('qiskit.ignis.mitigation.measurement.fitters.TensoredMeasFitter.add_data',))
def complete_add_data(self, new_results, rebuild_cal_matrix=True):
    self._tens_fitt.add_data(new_results, rebuild_cal_matrix)


@of('CompleteMeasFitter.readout_fidelity',
    no_inline=('qiskit.ignis.mitigation.measurement.fitters.TensoredMeasFitter.readout_fidelity',))
def complete_readout(self, label_list=None):
    return self._tens_fitt.readout_fidelity(0, label_list)


@of('CompleteMeasFitter.subset_fitter',
    no_inline=('qiskit.ignis.verification.tomography.data.count_keys',
               'qiskit.ignis.mitigation.measurement.fitters.TensoredMeasFitter.__init__',))
def subset_fitter(self, qubit_sublist=None):
    """Rows of the full matrix that agree on the sublist are added, columns averaged; bit k
    (from the right) of a new label is the bit of the k-th qubit of the sublist."""
    if self._tens_fitt.cal_matrices is None:
        raise ValueError
    if qubit_sublist is None:
        raise ValueError
    for qubit in qubit_sublist:
        if qubit not in self._qubit_list:
            raise ValueError
    new_labels = count_keys(len(qubit_sublist))
    positions = []
    for s in qubit_sublist:
        for k, qubit in enumerate(self._qubit_list):
            if qubit == s:
                positions.append(k)
    reduced = []
    for label in self._tens_fitt.substate_labels_list[0]:
        reduced.append(''.join([label[-1 - k] for k in reversed(positions)]))
    mapping = []
    for n, _ in enumerate(new_labels):
        mapping.append([])
        for k, label in enumerate(reduced):
            if label == new_labels[n]:
                mapping[-1].append(k)
    out = CompleteMeasFitter(results=None, state_labels=new_labels, qubit_list=qubit_sublist)
    mat = np.zeros([len(new_labels), len(new_labels)])
    for i in range(len(new_labels)):
        for j in range(len(new_labels)):
            for r in mapping[i]:
                for c in mapping[j]:
                    mat[i, j] += self._tens_fitt.cal_matrices[0][r, c]
            mat[i, j] /= len(mapping[i])
    out.cal_matrix = mat
    return out


@of('TensoredMeasFitter.__init__', ret=False,
    no_inline=('qiskit.ignis.verification.tomography.data.count_keys',
               'qiskit.ignis.mitigation.measurement.fitters.TensoredMeasFitter.add_data'))
def tens_init(self, results, mit_pattern, substate_labels_list=None, circlabel=''):
    self._result_list = []
    self._cal_matrices = None
    self._circlabel = circlabel
    self._qubit_list_sizes = [len(qubit_list) for qubit_list in mit_pattern]
    if substate_labels_list is None:
        self._substate_labels_list = [count_keys(size) for size in self._qubit_list_sizes]
    else:
        self._substate_labels_list = substate_labels_list
        if len(self._qubit_list_sizes) != len(substate_labels_list):
            raise ValueError
    self._indices_list = [{lab: ind for ind, lab in enumerate(labels)}
                          for labels in self._substate_labels_list]
    self.add_data(results)


@of('TensoredMeasFitter.add_data', ret=False,
    no_inline=('qiskit.ignis.mitigation.measurement.fitters.'
               'TensoredMeasFitter._build_calibration_matrices',))
def tens_add_data(self, new_results, rebuild_cal_matrix=True):
    if new_results is None:
        return
    if not isinstance(new_results, list):
        new_results = [new_results]
    for result in new_results:
        self._result_list.append(result)
    if rebuild_cal_matrix:
        self._build_calibration_matrices()


@of('TensoredMeasFitter.cal_matrices')
def tens_cal(self):
    return self._cal_matrices


@of('TensoredMeasFitter.substate_labels_list')
def tens_labels(self):
    return self._substate_labels_list


@of('TensoredMeasFitter.nqubits')
def tens_nqubits(self):
    return sum(self._qubit_list_sizes)


@of('TensoredMeasFitter.filter', no_inline=('TensoredFilter',))
def tens_filter(self):
    return TensoredFilter(self._cal_matrices, self._substate_labels_list)


@of('TensoredMeasFitter.readout_fidelity')
def tens_readout(self, cal_index=0, label_list=None):
    """Mean over the label sets of the probability that a state prepared in the set is read in it."""
    if self._cal_matrices is None:
        raise ValueError
    labels = self._substate_labels_list[cal_index]
    if label_list is None:
        label_list = [[label] for label in self._substate_labels_list[cal_index]]
    fids = []
    for group in label_list:
        idx = []
        for wanted in group:
            for k, label in enumerate(labels):
                if wanted == label:
                    idx.append(k)
        f = 0
        for i in idx:
            for j in idx:
                f += self._cal_matrices[cal_index][i][j]
        fids.append(f/len(idx))
    return np.mean(fids)


@of('TensoredMeasFitter._build_calibration_matrices', ret=False)
def tens_build(self):
    """Column: prepared state (from the circuit name), row: measured state, normalised columns."""
    self._cal_matrices = []
    for size in self._qubit_list_sizes:
        self._cal_matrices.append(np.zeros([2**size, 2**size], dtype=float))
    for result in self._result_list:
        for experiment in result.results:
            name = experiment.header.name
            found = re.search('(?<=' + self._circlabel + 'cal_)\\w+', name)
            if found is None:
                continue
            state = found.group(0)
            for measured, counts in result.get_counts(name).items():
                end = sum(self._qubit_list_sizes)
                for k, mat in enumerate(self._cal_matrices):
                    start = end - self._qubit_list_sizes[k]
                    col = self._indices_list[k][state[start:end]]
                    row = self._indices_list[k][measured[start:end]]
                    end = start
                    mat[row][col] += counts
    for k, _ in enumerate(self._cal_matrices):
        total = np.sum(self._cal_matrices[k], axis=0)
        self._cal_matrices[k] = np.divide(self._cal_matrices[k], total,
                                          out=np.zeros_like(self._cal_matrices[k]),
                                          where=total != 0)
