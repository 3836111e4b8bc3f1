import numpy as np
import scipy.linalg as la
import scipy.sparse as sps
from functools import partial
from itertools import combinations
from qiskit import QuantumCircuit
from qiskit.exceptions import QiskitError
from qiskit.ignis.verification.tomography import marginal_counts, combine_counts
from qiskit.ignis.mitigation.expval.utils import (
    counts_probability_vector, calibration_data, assignment_matrix, _expval_with_stddev,
    _amat_mask, _amat_index, _amat_accum_local, _amat_accum_full)
from qiskit.ignis.mitigation.expval.ctmp_mitigator import (
    CTMPExpvalMeasMitigator, _markov_chain_compiled, _choice)
from qiskit.ignis.mitigation.expval.complete_mitigator import CompleteExpvalMeasMitigator
from qiskit.ignis.mitigation.expval.tensored_mitigator import TensoredExpvalMeasMitigator
from qiskit.ignis.mitigation.expval.ctmp_fitter import (
    fit_ctmp_meas_mitigator, _ctmp_err_rate_1_q, _ctmp_err_rate_2_q, _local_g_matrix,
    _get_ctmp_error_rate, _supplementary_generators)
from qiskit.ignis.mitigation.expval.ctmp_generator_set import (
    standard_generator_set, single_qubit_bitstrings, two_qubit_bitstrings_symmetric,
    two_qubit_bitstrings_asymmetric)


# ------------------------------------------------------------------ plain statistics

@of('expval.utils._expval_with_stddev')
def expval_with_stddev(coeffs, probs, shots):
    """Mean of coeffs under probs; standard deviation of the mean over shots, clipped at 0."""
    mean = coeffs.dot(probs)
    var = ((coeffs**2).dot(probs) - mean**2)/shots
    return mean, (np.sqrt(var) if var > 0 else 0.0)


@of('expval.utils.expectation_value', no_inline=('_expval_with_stddev', 'marginal_counts'))
def expectation_value(counts, diagonal=None, qubits=None, clbits=None, meas_mitigator=None):
    if meas_mitigator is not None:
        return meas_mitigator.expectation_value(
            counts, diagonal=diagonal, clbits=clbits, qubits=qubits)
    if clbits is not None:
        counts = marginal_counts(counts, meas_qubits=clbits)
    n = np.array(list(counts.values()))
    p = n/n.sum()
    if diagonal is None:
        c = np.array([(-1)**(k.count('1') % 2) for k in counts.keys()], dtype=p.dtype)
    else:
        c = np.asarray(np.asarray(diagonal)[[int(k, 2) for k in counts.keys()]], dtype=p.dtype)
    return _expval_with_stddev(c, p, n.sum())


@of('expval.utils.counts_probability_vector', no_inline=('marginal_counts',))
def prob_vector(counts, qubits=None, clbits=None, num_qubits=None, return_shots=False):
    """Probability of each outcome; the bits are permuted to increasing physical qubit."""
    if clbits is not None:
        counts = marginal_counts(counts, meas_qubits=clbits)
    n = len(next(iter(counts))) if num_qubits is None else num_qubits
    if qubits is not None and len(qubits) != n:
        raise QiskitError
    vec = np.zeros(2**n, dtype=float)
    shots = 0
    for k, v in counts.items():
        vec[int(k, 2)] = v
        shots += v
    vec /= shots
    if qubits is not None:
        perm = [n - 1 - i for i in reversed(np.argsort(qubits))]
        vec = np.reshape(vec, n*[2]).transpose(perm).reshape(vec.shape)
    if return_shots:
        return vec, shots
    return vec


@of('expval.utils.calibration_data', no_inline=('combine_counts',))
def cal_data(result, metadata):
    """Counts of each prepared state, over the calibration experiments only."""
    data = {}
    n = None
    method = None
    for i, meta in enumerate(metadata):
        if meta.get('experiment') == 'meas_mit':
            if n is None:
                n = len(meta['cal'])
            if method is None:
                method = meta.get('method', None)
            k = int(meta['cal'], 2)
            c = result.get_counts(i).int_outcomes()
            if k in data:
                data[k] = combine_counts(data[k], c)
            else:
                data[k] = c
    return data, n, method


@of('expval.utils.assignment_matrix', no_inline=(
    '_amat_mask', '_amat_accum_local', '_amat_accum_full'))
def amat(cal_data, num_qubits, qubits=None):
    """Column-normalised transition counts."""
    if qubits is not None:
        qubits = np.asarray(qubits)
        dim = 1 << qubits.size
        acc = partial(_amat_accum_local, qubits, _amat_mask(qubits, num_qubits))
    else:
        qubits = np.array(range(num_qubits))
        dim = 1 << num_qubits
        acc = _amat_accum_full
    m = np.zeros([dim, dim], dtype=float)
    for prep, counts in cal_data.items():
        acc(m, prep, np.array(list(counts.keys())), np.array(list(counts.values())))
    tot = m.sum(axis=0, keepdims=True)
    if np.any(tot == 0):
        raise QiskitError
    return m/tot


@of('expval.utils._amat_mask')
def mask(qubits, num_qubits):
    """Bits of the qubits that are not selected."""
    m = 0
    for i in range(num_qubits):
        if not np.any(qubits == i):
            m += 1 << i
    return m


@of('expval.utils._amat_index')
def index(i, qubits):
    """Selected bits of i, first listed qubit most significant."""
    return np.sum(((i & (1 << qubits)) >> qubits) << np.arange(qubits.size - 1, -1, -1))


@of('expval.utils._amat_accum_local', no_inline=('_amat_index',))
def accum_local(qubits, mask, mat, cal, counts_keys, counts_values):
    """Only outcomes that agree with the preparation outside the selected qubits are used."""
    x = _amat_index(cal, qubits)
    for i in range(counts_keys.size):
        if cal & mask == counts_keys[i] & mask:
            mat[_amat_index(counts_keys[i], qubits), x] += counts_values[i]


@of('expval.utils._amat_accum_full')
def accum_full(mat, cal, counts_keys, counts_values):
    for i in range(counts_keys.size):
        mat[counts_keys[i], cal] += counts_values[i]


# ------------------------------------------------------------------ calibration circuits

@of('ExpvalMeasMitigatorCircuits._calibration_circuit')
def cal_circuit(num_qubits, label):
    circ = QuantumCircuit(num_qubits, name='meas_mit_cal_' + label)
    for i, v in enumerate(reversed(label)):
        if v == '1':
            circ.x(i)
    circ.measure_all()
    return circ


@of('ExpvalMeasMitigatorCircuits._method_labels')
def method_labels(self, method):
    n = self._num_qubits
    if method == 'tensored':
        return [n*'0', n*'1']
    if method in ['CTMP', 'ctmp']:
        out = [n*'0', n*'1']
        for i in range(n):
            out.append((n - i - 1)*'0' + '1' + i*'0')
        return out
    if method == 'complete':
        out = []
        for i in range(2**n):
            out.append((n - len(bin(i)[2:]))*'0' + bin(i)[2:])
        return out
    raise QiskitError


@of('ExpvalMeasMitigatorCircuits.__init__', ret=False, no_inline=(
    '_method_labels', '_calibration_circuit'))
def circuits_init(self, num_qubits, method='CTMP', labels=None):
    self._num_qubits = num_qubits
    self._circuits = []
    self._metadata = []
    for lab in (self._method_labels(method) if labels is None else labels):
        self._metadata.append({'experiment': 'meas_mit', 'cal': lab, 'method': method})
        self._circuits.append(self._calibration_circuit(num_qubits, lab))


# ------------------------------------------------------------------ fitter

@of('ExpvalMeasMitigatorFitter.__init__', ret=False, no_inline=('calibration_data',))
def fitter_init(self, result, metadata):
    self._mitigator = None
    self._cal_data, self._num_qubits, self._method = calibration_data(result, metadata)


@of('ExpvalMeasMitigatorFitter.mitigator')
def mitigator(self):
    if self._mitigator is None:
        raise QiskitError
    return self._mitigator


@of('ExpvalMeasMitigatorFitter.fit', no_inline=(
    'assignment_matrix', 'fit_ctmp_meas_mitigator', 'CompleteExpvalMeasMitigator.__init__',
    'TensoredExpvalMeasMitigator.__init__'))
def fitter_fit(self, method=None, generators=None):
    if method is None:
        method = self._method
    n, data = self._num_qubits, self._cal_data
    if method == 'complete':
        self._mitigator = CompleteExpvalMeasMitigator(assignment_matrix(data, n))
    elif method == 'tensored':
        self._mitigator = TensoredExpvalMeasMitigator(
            [assignment_matrix(data, n, [q]) for q in range(n)])
    elif method in ['CTMP', 'ctmp']:
        self._mitigator = fit_ctmp_meas_mitigator(data, n, generators)
    else:
        raise QiskitError
    return self._mitigator


# ------------------------------------------------------------------ common

@of('BaseExpvalMeasMitigator.assignment_fidelity')
def assignment_fidelity(self, qubits=None):
    return self.assignment_matrix(qubits=qubits).diagonal().mean()


@of('BaseExpvalMeasMitigator.required_shots')
def required_shots(self, delta, qubits=None):
    return int(np.ceil((2*self._compute_gamma(qubits=qubits)/delta)**2))


@of('BaseExpvalMeasMitigator.mitigation_overhead')
def mitigation_overhead(self, qubits=None):
    return int(np.ceil(self._compute_gamma(qubits=qubits)**2))


@of('BaseExpvalMeasMitigator.stddev_upper_bound')
def stddev_upper_bound(self, shots=1, qubits=None):
    return self._compute_gamma(qubits=qubits)/np.sqrt(shots)


@of('BaseExpvalMeasMitigator._z_diagonal')
def z_diagonal(dim, dtype=float):
    par = np.zeros(dim, dtype=dtype)
    for i in range(dim):
        par[i] = bin(i)[2:].count('1')
    return (-1)**np.mod(par, 2)


@of('BaseExpvalMeasMitigator._int_to_bitstring')
def int_to_bitstring(i, num_qubits=None):
    s = bin(i)[2:]
    if num_qubits and num_qubits - len(s) > 0:
        s = (num_qubits - len(s))*'0' + s
    return s


# ------------------------------------------------------------------ complete

@of('CompleteExpvalMeasMitigator.__init__', ret=False)
def complete_init(self, amat):
    self._num_qubits = int(np.log2(amat.shape[0]))
    self._assignment_mat = amat
    self._mitigation_mats = {}


@of('CompleteExpvalMeasMitigator.expectation_value', no_inline=(
    'counts_probability_vector', '_expval_with_stddev', 'mitigation_matrix', '_z_diagonal'))
def complete_expval(self, counts, diagonal=None, qubits=None, clbits=None):
    p, shots = counts_probability_vector(counts, clbits=clbits, qubits=qubits, return_shots=True)
    n = int(np.log2(p.shape[0]))
    if qubits is None:
        qubits = tuple(range(n))
    if len(qubits) != n:
        raise QiskitError
    if diagonal is None:
        diagonal = self._z_diagonal(2**n)
    return _expval_with_stddev(self.mitigation_matrix(qubits).T.dot(diagonal), p, shots)


@of('CompleteExpvalMeasMitigator.mitigation_matrix', no_inline=(
    'CompleteExpvalMeasMitigator.assignment_matrix',))
def complete_mitmat(self, qubits=None):
    if qubits is None:
        qubits = tuple(range(self._num_qubits))
    else:
        qubits = tuple(sorted(qubits))
    if qubits not in self._mitigation_mats:
        a = self.assignment_matrix(qubits)
        try:
            inv = np.linalg.inv(a)
        except np.linalg.LinAlgError:
            inv = np.linalg.pinv(a)
        self._mitigation_mats[qubits] = inv
    return self._mitigation_mats[qubits]


@of('CompleteExpvalMeasMitigator.assignment_matrix', no_inline=('_keep_indexes',))
def complete_amat(self, qubits=None):
    """Other qubits prepared in 0 and their outcomes summed over."""
    if qubits is None:
        return self._assignment_mat
    if isinstance(qubits, int):
        qubits = [qubits]
    n = self._num_qubits
    k = len(qubits)
    axis = tuple([n - 1 - i for i in set(range(n)).difference(qubits)])
    m = np.zeros(2*[2**k], dtype=float)
    for i, col in enumerate(self._assignment_mat.T[self._keep_indexes(qubits)]):
        m[i] = np.reshape(col, n*[2]).sum(axis=axis).reshape([2**k])
    return m.T


@of('CompleteExpvalMeasMitigator._keep_indexes')
def keep_indexes(qubits):
    out = [0]
    for i in sorted(qubits):
        out += [x + (1 << i) for x in out]
    return out


@of('CompleteExpvalMeasMitigator._compute_gamma', no_inline=('mitigation_matrix',))
def complete_gamma(self, qubits=None):
    return np.max(np.sum(np.abs(self.mitigation_matrix(qubits=qubits)), axis=0))


# ------------------------------------------------------------------ tensored

@of('TensoredExpvalMeasMitigator.__init__', ret=False)
def tensored_init(self, amats):
    n = len(amats)
    self._num_qubits = n
    self._assignment_mats = amats
    self._mitigation_mats = np.zeros([n, 2, 2], dtype=float)
    self._gammas = np.zeros(n, dtype=float)
    for i in range(n):
        a = amats[i]
        self._gammas[i] = (1 + abs(a[1, 0] - a[0, 1]))/(1 - a[1, 0] - a[0, 1])
        try:
            inv = np.linalg.inv(a)
        except np.linalg.LinAlgError:
            inv = np.linalg.pinv(a)
        self._mitigation_mats[i] = inv


@of('TensoredExpvalMeasMitigator.expectation_value', no_inline=(
    'counts_probability_vector', '_expval_with_stddev', '_z_diagonal'))
def tensored_expval(self, counts, diagonal=None, qubits=None, clbits=None):
    p, shots = counts_probability_vector(counts, clbits=clbits, return_shots=True)
    n = int(np.log2(p.shape[0]))
    inv = self._mitigation_mats if qubits is None else self._mitigation_mats[list(qubits)]
    if diagonal is None:
        diagonal = self._z_diagonal(2**n)
    args = [np.reshape(diagonal, n*[2]), list(range(n))]
    for i, m in enumerate(reversed(inv)):
        args += [m.T, [n + i, i]]
    args += [list(range(n, 2*n))]
    return _expval_with_stddev(np.einsum(*args).ravel(), p, shots)


@of('TensoredExpvalMeasMitigator.mitigation_matrix')
def tensored_mitmat(self, qubits=None):
    if qubits is None:
        qubits = list(range(self._num_qubits))
    if isinstance(qubits, int):
        qubits = [qubits]
    m = self._mitigation_mats[qubits[0]]
    for q in qubits[1:]:
        m = np.kron(self._mitigation_mats[q], m)
    return m


@of('TensoredExpvalMeasMitigator.assignment_matrix')
def tensored_amat(self, qubits=None):
    if qubits is None:
        qubits = list(range(self._num_qubits))
    if isinstance(qubits, int):
        qubits = [qubits]
    m = self._assignment_mats[qubits[0]]
    for q in qubits[1:]:
        m = np.kron(self._assignment_mats[q], m)
    return m


@of('TensoredExpvalMeasMitigator.assignment_fidelity')
def tensored_fid(self, qubits=None):
    if qubits is None:
        qubits = list(range(self._num_qubits))
    if isinstance(qubits, int):
        qubits = [qubits]
    f = 1.0
    for q in qubits:
        f *= np.mean(self._assignment_mats[q].diagonal())
    return f


@of('TensoredExpvalMeasMitigator._compute_gamma')
def tensored_gamma(self, qubits=None):
    if qubits is None:
        return np.product(self._gammas)
    return np.product(self._gammas[list(qubits)])


# ------------------------------------------------------------------ CTMP

@of('CTMPExpvalMeasMitigator.__init__', ret=False, no_inline=('CTMPExpvalMeasMitigator.seed',))
def ctmp_init(self, generators, rates, num_qubits=None, seed=None):
    if num_qubits is None:
        self._num_qubits = 1 + max([max([max(g[2]) for g in generators])])
    else:
        self._num_qubits = num_qubits
    keep_r = []
    keep_g = []
    for r, g in zip(rates, generators):
        if r > 1e-5:
            keep_r.append(r)
            keep_g.append(g)
    self._generators = keep_g
    self._rates = np.array(keep_r, dtype=float)
    self._generator_mats = {}
    self._noise_strengths = {}
    self._sampling_mats = {}


@of('CTMPExpvalMeasMitigator.generator_matrix', no_inline=('_generator_to_coo_matrix',))
def ctmp_generator_matrix(self, qubits=None):
    if qubits is None:
        qubits = tuple(range(self._num_qubits))
    else:
        qubits = tuple(sorted(qubits))
    if qubits not in self._generator_mats:
        m = sps.coo_matrix(2*(2**len(qubits),), dtype=np.float)
        for g, r in zip(self._generators, self._rates):
            if set(qubits).issuperset(g[2]):
                m += r*self._generator_to_coo_matrix(g, qubits)
        self._generator_mats[qubits] = sps.coo_matrix(m)
    return self._generator_mats[qubits]


@of('CTMPExpvalMeasMitigator.mitigation_matrix', no_inline=('generator_matrix',))
def ctmp_mitmat(self, qubits=None):
    return la.expm(-np.flip(self.generator_matrix(qubits).todense()))


@of('CTMPExpvalMeasMitigator.assignment_matrix', no_inline=('generator_matrix',))
def ctmp_amat(self, qubits=None):
    return la.expm(np.flip(self.generator_matrix(qubits).todense()))


@of('CTMPExpvalMeasMitigator.noise_strength', no_inline=('generator_matrix',))
def ctmp_gamma(self, qubits=None):
    if qubits is None:
        qubits = tuple(range(self._num_qubits))
    else:
        qubits = tuple(sorted(qubits))
    if qubits not in self._noise_strengths:
        m = self.generator_matrix(qubits)
        if m.row.size == 0:
            s = 0
        else:
            s = np.max(-m.data[m.row == m.col])
        if s < 0:
            raise QiskitError
        self._noise_strengths[qubits] = s
    return self._noise_strengths[qubits]


@of('CTMPExpvalMeasMitigator._compute_gamma', no_inline=('noise_strength',))
def ctmp_compute_gamma(self, qubits=None):
    if qubits is not None:
        raise NotImplementedError
    return np.exp(2*self.noise_strength(qubits))


@of('CTMPExpvalMeasMitigator._sampling_matrix', no_inline=('generator_matrix', 'noise_strength'))
def ctmp_sampling(self, qubits=None):
    if qubits is None:
        qubits = tuple(range(self._num_qubits))
    else:
        qubits = tuple(sorted(qubits))
    if qubits not in self._sampling_mats:
        g = self.generator_matrix(qubits)
        s = self.noise_strength(qubits)
        b = sps.eye(2**len(qubits))
        if s != 0:
            b = b + g/s
        self._sampling_mats[qubits] = b.tocsc()
    return self._sampling_mats[qubits]


@of('CTMPExpvalMeasMitigator._tensor_list')
def tensor_list(parts):
    r = parts[0]
    for m in parts[1:]:
        r = sps.kron(r, m)
    return r


@of('CTMPExpvalMeasMitigator._generator_to_coo_matrix', no_inline=('_tensor_list',))
def gen_to_coo(self, gen, qubits):
    """|b><a| - |a><a| on the generator's qubits, identity elsewhere; qubit 0 least significant."""
    kb = {'00': np.array([[1, 0], [0, 0]]), '01': np.array([[0, 1], [0, 0]]),
          '10': np.array([[0, 0], [1, 0]]), '11': np.array([[0, 0], [0, 1]])}
    b, a, on = gen
    n = len(qubits)
    ba = list(map(lambda x: ''.join(x), list(zip(*[b, a]))))
    aa = list(map(lambda x: ''.join(x), list(zip(*[a, a]))))
    up = [sps.eye(2, 2).tocoo()]*n
    down = [sps.eye(2, 2).tocoo()]*n
    for q, s_ba, s_aa in zip(on, ba, aa):
        k = qubits.index(q)
        up[k] = kb[s_ba]
        down[k] = kb[s_aa]
    return sps.coo_matrix(2*(2**n,), dtype=float) + self._tensor_list(up[::-1]) \
        - self._tensor_list(down[::-1])


@of('CTMPExpvalMeasMitigator._ctmp_inverse', no_inline=('_markov_chain_compiled',))
def ctmp_inverse(n_samples, probs, gamma, csc_data, csc_indices, csc_indptrs, rng):
    alphas = rng.poisson(lam=gamma, size=n_samples)
    x = rng.choice(len(probs), size=n_samples, p=probs)
    r = rng.random(size=alphas.sum())
    y = np.zeros(x.size, dtype=np.int)
    _markov_chain_compiled(y, x, r, alphas, csc_data, csc_indices, csc_indptrs)
    return y, np.mod(alphas, 2)


@of('CTMPExpvalMeasMitigator.expectation_value', no_inline=(
    'counts_probability_vector', '_z_diagonal', 'noise_strength', '_sampling_matrix',
    '_ctmp_inverse'))
def ctmp_expval(self, counts, diagonal=None, qubits=None, clbits=None):
    if qubits is None:
        qubits = list(range(self._num_qubits))
    p, _ = counts_probability_vector(
        counts, clbits=clbits, qubits=qubits, num_qubits=len(qubits), return_shots=True)
    if diagonal is None:
        diagonal = self._z_diagonal(2**len(qubits))
    diagonal = np.asarray(diagonal, dtype=p.dtype)
    g = self.noise_strength(qubits)
    b = self._sampling_matrix(qubits)
    shots = sum(counts.values())
    num = int(np.ceil(max(4/0.05**2, shots)*np.exp(2*g)))
    tot = 0
    for n in (num//50000)*[50000] + [num % 50000]:
        x, sign = self._ctmp_inverse(n, p, g, b.data, np.asarray(b.indices, dtype=np.int),
                                     np.asarray(b.indptr, dtype=np.int), self._rng)
        tot += diagonal[x[sign == 0]].sum()
        tot -= diagonal[x[sign == 1]].sum()
    return np.exp(2*g)/num*tot, np.exp(2*g)/np.sqrt(shots)


@of('ctmp_mitigator._choice')
def choice(inds, probs, r_val):
    c = np.cumsum(probs)
    for i in range(len(c)):
        if r_val < c[i]:
            return inds[i]
    return inds[-1]


@of('ctmp_mitigator._markov_chain_compiled', no_inline=('_choice',))
def markov(y_vals, x_vals, r_vals, alpha_vals, csc_vals, csc_indices, csc_indptrs):
    pos = 0
    for i in range(y_vals.size):
        y = x_vals[i]
        for _ in range(alpha_vals[i]):
            lo = csc_indptrs[y]
            hi = csc_indptrs[y + 1]
            y = _choice(csc_indices[lo:hi], csc_vals[lo:hi], r_vals[pos])
            pos += 1
        y_vals[i] = y


# ------------------------------------------------------------------ CTMP fit

@of('ctmp_fitter._ctmp_err_rate_2_q')
def rate2(gen, g_mat_dict):
    return g_mat_dict[gen][int(gen[0], 2), int(gen[1], 2)]


@of('ctmp_fitter._ctmp_err_rate_1_q', no_inline=('_ctmp_err_rate_2_q',))
def rate1(a, b, j, g_mat_dict, num_qubits):
    """Mean over the partner qubit and its (unchanged) value."""
    rates = []
    if a == '0' and b == '1':
        g1, g2 = ('00', '10'), ('01', '11')
    elif a == '1' and b == '0':
        g1, g2 = ('10', '00'), ('11', '01')
    else:
        raise ValueError
    for k in range(num_qubits):
        if k == j:
            continue
        rates.append(_ctmp_err_rate_2_q(g1 + ((j, k),), g_mat_dict))
        rates.append(_ctmp_err_rate_2_q(g2 + ((j, k),), g_mat_dict))
    if len(rates) != 2*(num_qubits - 1):
        raise ValueError
    return np.mean(rates)


@of('ctmp_fitter._get_ctmp_error_rate', no_inline=('_ctmp_err_rate_1_q', '_ctmp_err_rate_2_q'))
def rate(gen, g_mat_dict, num_qubits):
    if len(gen[0]) == 1:
        r = _ctmp_err_rate_1_q(gen[1], gen[0], gen[2][0], g_mat_dict, num_qubits)
    elif len(gen[0]) == 2:
        r = _ctmp_err_rate_2_q(gen, g_mat_dict)
    return r


@of('ctmp_fitter._supplementary_generators')
def supp(gen_list):
    out = []
    for t in {tuple(g[2]) for g in gen_list}:
        out.append(('10', '00', t))
        out.append(('00', '10', t))
        out.append(('11', '01', t))
        out.append(('01', '11', t))
    return out


@of('ctmp_fitter._local_g_matrix', no_inline=('assignment_matrix',))
def local_g(gen, cal_data, num_qubits):
    j, k = gen[2]
    g = la.logm(assignment_matrix(cal_data, num_qubits, [j, k]))
    if np.linalg.norm(np.imag(g)) > 1e-3:
        raise QiskitError
    g = np.real(g)
    for r in range(4):
        for c in range(4):
            if r != c and g[r, c] < 0:
                g[r, c] = 0
    return g


@of('ctmp_fitter.fit_ctmp_meas_mitigator', no_inline=(
    '_local_g_matrix', '_get_ctmp_error_rate', 'standard_generator_set',
    '_supplementary_generators', 'CTMPExpvalMeasMitigator.__init__'))
def fit_ctmp(cal_data, num_qubits, generators=None):
    if not isinstance(num_qubits, int):
        raise QiskitError
    if generators is None:
        generators = standard_generator_set(num_qubits)
    mats = {}
    for g in generators + _supplementary_generators(generators):
        if len(g[2]) > 1:
            mats[g] = _local_g_matrix(g, cal_data, num_qubits)
    return CTMPExpvalMeasMitigator(
        generators, [_get_ctmp_error_rate(g, mats, num_qubits) for g in generators])


@of('ctmp_generator_set.single_qubit_bitstrings')
def single(num_qubits):
    out = [('1', '0', (i,)) for i in range(num_qubits)]
    out += [('0', '1', (i,)) for i in range(num_qubits)]
    return out


@of('ctmp_generator_set.two_qubit_bitstrings_symmetric')
def sym(num_qubits, pairs=None):
    if pairs is None:
        pairs = list(combinations(range(num_qubits), r=2))
    out = [('11', '00', (i, j)) for i, j in pairs if i < j]
    out += [('00', '11', (i, j)) for i, j in pairs if i < j]
    if len(out) != num_qubits*(num_qubits - 1):
        raise ValueError
    return out


@of('ctmp_generator_set.two_qubit_bitstrings_asymmetric')
def asym(num_qubits, pairs=None):
    if pairs is None:
        pairs = list(combinations(range(num_qubits), r=2))
    out = [('10', '01', (i, j)) for i, j in pairs]
    out += [('10', '01', (j, i)) for i, j in pairs]
    if len(out) != num_qubits*(num_qubits - 1):
        raise ValueError
    return out


@of('ctmp_generator_set.standard_generator_set', no_inline=(
    'single_qubit_bitstrings', 'two_qubit_bitstrings_symmetric',
    'two_qubit_bitstrings_asymmetric'))
def standard(num_qubits, pairs=None):
    if not isinstance(num_qubits, int) or num_qubits <= 0:
        raise ValueError
    out = []
    out += single_qubit_bitstrings(num_qubits)
    if num_qubits > 1:
        out += two_qubit_bitstrings_symmetric(num_qubits, pairs=pairs)
        out += two_qubit_bitstrings_asymmetric(num_qubits, pairs=pairs)
        if len(out) != 2*num_qubits**2:
            raise ValueError
    return out
