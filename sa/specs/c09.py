from copy import deepcopy
import numpy as np
import scipy.linalg as la
import qiskit
from scipy.optimize import minimize
from qiskit.tools import parallel_map
from qiskit.ignis.verification.tomography import count_keys


@of('MeasurementFilter.__init__', ret=False)
def filter_init(self, cal_matrix, state_labels):
    self._cal_matrix = cal_matrix
    self._state_labels = state_labels


@of('MeasurementFilter.cal_matrix')
def filter_cal(self):
    return self._cal_matrix


@of('MeasurementFilter.state_labels')
def filter_labels(self):
    return self._state_labels


@of('MeasurementFilter.apply', given={'method': 'pseudo_inverse'},
    no_inline=('qiskit.ignis.mitigation.measurement.filters.MeasurementFilter._apply_correction',))
@of('MeasurementFilter.apply', given={'method': 'least_squares'},
    no_inline=('qiskit.ignis.mitigation.measurement.filters.MeasurementFilter._apply_correction',))
@of('MeasurementFilter.apply', given={'method': 'other'},
    no_inline=('qiskit.ignis.mitigation.measurement.filters.MeasurementFilter._apply_correction',))
def filter_apply(self, raw_data, method='least_squares'):
    """counts -> counts, one vector -> one vector, a concatenation of vectors -> a concatenation,
    a Result -> a Result with every counts entry corrected; each vector is replaced by
    pinv(A) v or by the x in [0, n]^k with sum x = n that minimises |v - A x|^2."""
    if isinstance(raw_data, dict):
        for label in raw_data.keys():
            if label not in self._state_labels:
                raise ValueError
        form = 0
        data = [np.zeros(len(self._state_labels), dtype=float)]
        for k, state in enumerate(self._state_labels):
            data[0][k] = raw_data.get(state, 0)
    elif isinstance(raw_data, list):
        ratio = len(raw_data)/len(self._state_labels)
        if len(raw_data) == len(self._state_labels):
            form = 1
            data = [raw_data]
        elif int(ratio) == ratio:
            form = 2
            ratio = int(ratio)
            data = np.zeros([ratio, len(self._state_labels)])
            for i in range(ratio):
                data[i][:] = raw_data[i*len(self._state_labels):(i + 1)*len(self._state_labels)]
        else:
            raise ValueError
    elif isinstance(raw_data, qiskit.result.result.Result):
        new_result = deepcopy(raw_data)
        corrected = parallel_map(self._apply_correction,
                                 [k for k, _ in enumerate(raw_data.results)],
                                 task_args=(raw_data, method))
        for k, counts in corrected:
            new_result.results[k].data.counts = counts
        return new_result
    else:
        raise ValueError
    if method == 'pseudo_inverse':
        inverse = la.pinv(self._cal_matrix)
    for k, _ in enumerate(data):
        if method == 'pseudo_inverse':
            data[k] = np.dot(inverse, data[k])
        elif method == 'least_squares':
            nshots = sum(data[k])

            def fun(x):
                return sum((data[k] - np.dot(self._cal_matrix, x))**2)
            x0 = np.random.rand(len(self._state_labels))
            x0 = x0/sum(x0)
            res = minimize(fun, x0, method='SLSQP',
                           constraints={'type': 'eq', 'fun': lambda x: nshots - sum(x)},
                           bounds=tuple((0, nshots) for x in x0), tol=1e-6)
            data[k] = res.x
        else:
            raise ValueError
    if form == 2:
        return data.flatten()
    if form == 0:
        out = {}
        for k, state in enumerate(self._state_labels):
            if data[0][k] != 0:
                out[state] = data[0][k]
        return out
    return data[0]


@of('MeasurementFilter._apply_correction', no_inline=(
    'qiskit.ignis.mitigation.measurement.filters.MeasurementFilter.apply',))
def filter_correction(self, resultidx, raw_data, method):
    return resultidx, self.apply(raw_data.get_counts(resultidx), method=method)


@of('TensoredFilter.__init__', ret=False)
def tfilter_init(self, cal_matrices, substate_labels_list):
    self._cal_matrices = cal_matrices
    self._substate_labels_list = substate_labels_list
    self._qubit_list_sizes = [int(np.log2(len(x))) for x in substate_labels_list]
    self._indices_list = [{lab: ind for ind, lab in enumerate(x)} for x in substate_labels_list]


@of('TensoredFilter.cal_matrices')
def tfilter_cal(self):
    return self._cal_matrices


@of('TensoredFilter.nqubits')
def tfilter_nqubits(self):
    return sum(self._qubit_list_sizes)


@of('TensoredFilter._apply_correction', no_inline=(
    'qiskit.ignis.mitigation.measurement.filters.TensoredFilter.apply',))
def tfilter_correction(self, resultidx, raw_data, method):
    return resultidx, self.apply(raw_data.get_counts(resultidx), method=method)


@of('TensoredFilter.apply', given={'method': 'pseudo_inverse'},
    no_inline=('qiskit.ignis.mitigation.measurement.filters.TensoredFilter._apply_correction',
               'qiskit.ignis.verification.tomography.data.count_keys'))
@of('TensoredFilter.apply', given={'method': 'least_squares'},
    no_inline=('qiskit.ignis.mitigation.measurement.filters.TensoredFilter._apply_correction',
               'qiskit.ignis.verification.tomography.data.count_keys'))
@of('TensoredFilter.apply', given={'method': 'other'},
    no_inline=('qiskit.ignis.mitigation.measurement.filters.TensoredFilter._apply_correction',
               'qiskit.ignis.verification.tomography.data.count_keys'))
def tfilter_apply(self, raw_data, method='least_squares'):
    """As MeasurementFilter with the matrix element the product of the group elements; the groups
    are read from the right end of the label."""
    nqubits = sum(self._qubit_list_sizes)
    states = count_keys(nqubits)
    dim = 2**nqubits
    if isinstance(raw_data, dict):
        data = [np.zeros(dim, dtype=float)]
        for state, count in raw_data.items():
            data[0][int(state, 2)] = count
    elif isinstance(raw_data, qiskit.result.result.Result):
        new_result = deepcopy(raw_data)
        corrected = parallel_map(self._apply_correction,
                                 [k for k, _ in enumerate(raw_data.results)],
                                 task_args=(raw_data, method))
        for k, counts in corrected:
            new_result.results[k].data.counts = counts
        return new_result
    else:
        raise ValueError
    if method == 'pseudo_inverse':
        inverses = []
        for mat in self._cal_matrices:
            inverses.append(la.pinv(mat))
    for k, _ in enumerate(data):
        if method == 'pseudo_inverse':
            out = np.zeros([dim], dtype=float)
            for i1, s1 in enumerate(states):
                for i2, s2 in enumerate(states):
                    if data[k][i2] == 0:
                        continue
                    product = 1.0
                    end = nqubits
                    for p, mat in enumerate(inverses):
                        start = end - self._qubit_list_sizes[p]
                        r = self._indices_list[p][s1[start:end]]
                        c = self._indices_list[p][s2[start:end]]
                        end = start
                        product *= mat[r][c]
                        if product == 0:
                            break
                    out[i1] += product*data[k][i2]
            data[k] = out
        elif method == 'least_squares':
            def fun(x):
                ax = np.zeros([dim], dtype=float)
                for i1, s1 in enumerate(states):
                    ax[i1] = 0.0
                    for i2, s2 in enumerate(states):
                        if x[i2] != 0:
                            product = 1.0
                            end = nqubits
                            for p, mat in enumerate(self._cal_matrices):
                                start = end - self._qubit_list_sizes[p]
                                r = self._indices_list[p][s1[start:end]]
                                c = self._indices_list[p][s2[start:end]]
                                end = start
                                product *= mat[r][c]
                                if product == 0:
                                    break
                            ax[i1] += product*x[i2]
                return sum((data[k] - ax)**2)
            x0 = np.random.rand(dim)
            x0 = x0/sum(x0)
            nshots = sum(data[k])
            res = minimize(fun, x0, method='SLSQP',
                           constraints={'type': 'eq', 'fun': lambda x: nshots - sum(x)},
                           bounds=tuple((0, nshots) for x in x0), tol=1e-6)
            data[k] = res.x
        else:
            raise ValueError
    out = {}
    for k, state in enumerate(states):
        if data[0][k] != 0:
            out[state] = data[0][k]
    return out
