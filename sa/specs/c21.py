import itertools as it
from ast import literal_eval
from functools import reduce
from itertools import combinations
from re import match
import numpy as np
import cvxpy
from scipy import linalg as la
from scipy import sparse as sps
from scipy.linalg import lstsq
from qiskit import QuantumCircuit, QiskitError
from qiskit.result import Result
from qiskit.quantum_info.operators import Choi
from qiskit.ignis.verification.tomography.basis import TomographyBasis, default_basis
from qiskit.ignis.verification.tomography.data import (
    marginal_counts, combine_counts, count_keys)
from qiskit.ignis.verification.tomography.fitters.base_fitter import TomographyFitter
from qiskit.ignis.verification.tomography.fitters.lstsq_fit import (
    lstsq_fit, make_positive_semidefinite)
from qiskit.ignis.verification.tomography.fitters.cvx_fit import (
    cvx_fit, partial_trace_super, _HAS_CVX)


# ------------------------------------------------------------------ data

@of('TomographyFitter.__init__', no_inline=('set_measure_basis', 'set_preparation_basis',
                                            'add_data', 'default_basis'), attrs=())
def tf_init(self, result, circuits, meas_basis='Pauli', prep_basis='Pauli'):
    self.set_measure_basis(meas_basis)
    self.set_preparation_basis(prep_basis)
    if isinstance(result, Result):
        result = [result]
    self._data = {}
    self.add_data(result, circuits)


@of('TomographyFitter.set_measure_basis', no_inline=('default_basis',))
def tf_mbasis(self, basis):
    self._meas_basis = default_basis(basis)
    if isinstance(self._meas_basis, TomographyBasis):
        if self._meas_basis.measurement is not True:
            raise ValueError


@of('TomographyFitter.set_preparation_basis', no_inline=('default_basis',))
def tf_pbasis(self, basis):
    self._prep_basis = default_basis(basis)
    if isinstance(self._prep_basis, TomographyBasis):
        if self._prep_basis.preparation is not True:
            raise ValueError


@of('TomographyFitter.measure_basis')
def tf_mb(self):
    return self._meas_basis


@of('TomographyFitter.preparation_basis')
def tf_pb(self):
    return self._prep_basis


@of('TomographyFitter.data')
def tf_data(self):
    return self._data


@of('TomographyFitter.add_data', no_inline=('marginal_counts', 'combine_counts'))
def tf_add(self, results, circuits):
    if len(circuits) == 0:
        raise ValueError
    if isinstance(circuits[0], str) or len(circuits[0].cregs) == 1:
        marginalize = False
    else:
        marginalize = True
    for circ in circuits:
        counts = None
        for result in results:
            try:
                counts = result.get_counts(circ)
            except QiskitError:
                pass
        if counts is None:
            raise ValueError
        if isinstance(circ, str):
            tup = literal_eval(circ)
        elif isinstance(circ, QuantumCircuit):
            tup = literal_eval(circ.name)
        else:
            tup = circ
        if marginalize:
            labels = tup[0] if isinstance(tup[0], tuple) else tup
            counts = marginal_counts(counts, range(len(labels)))
        if tup in self._data:
            self._data[tup] = combine_counts(self._data[tup], counts)
        else:
            self._data[tup] = counts


# ------------------------------------------------------------------ linear model

@of('TomographyFitter._fitter_data', given={'standard_weights': True},
    no_inline=('_binomial_weights', '_preparation_op', '_measurement_ops',
               '_basis_operator_matrix', 'count_keys'))
@of('TomographyFitter._fitter_data', given={'standard_weights': False},
    no_inline=('_binomial_weights', '_preparation_op', '_measurement_ops',
               '_basis_operator_matrix', 'count_keys'))
def tf_fdata(self, standard_weights, beta):
    measurement = self._meas_basis.measurement_matrix if self._meas_basis else None
    preparation = self._prep_basis.preparation_matrix if self._prep_basis else None
    first = next(iter(self._data))
    is_qpt = (isinstance(first, tuple) and len(first) == 2 and
              isinstance(first[0], tuple) and isinstance(first[1], tuple))
    keys = count_keys(len(first[1])) if is_qpt else count_keys(len(first))
    data = []
    weights = [] if standard_weights else None
    blocks = []
    for label, cts in self._data.items():
        if isinstance(cts, dict):
            cts = np.array([cts.get(k, 0) for k in keys])
        data += list(np.array(cts)/np.sum(cts))
        if standard_weights is True:
            weights += list(self._binomial_weights(cts, beta))
        if is_qpt:
            prep_label, meas_label = label[0], label[1]
        else:
            prep_label, meas_label = None, label
        prep_op = self._preparation_op(prep_label, preparation)
        meas_ops = self._measurement_ops(meas_label, measurement)
        blocks.append(self._basis_operator_matrix([np.kron(prep_op.T, m) for m in meas_ops]))
    return data, np.vstack(blocks), weights


@of('TomographyFitter._binomial_weights', no_inline=('marginal_counts',))
def tf_weights(self, counts, beta=0.5):
    if isinstance(counts, dict):
        mcts = marginal_counts(counts, pad_zeros=True)
        counts = np.array([mcts[k] for k in sorted(list(mcts))])
    else:
        counts = np.array(counts)
    shots = np.sum(counts)
    if beta < 0:
        raise ValueError
    if beta == 0 and (shots in counts or 0 in counts):
        beta = 0.5
    f = (counts + beta)/(shots + len(counts)*beta)
    return np.sqrt(shots/(f*(1 - f)))


@of('TomographyFitter._basis_operator_matrix')
def tf_bmat(self, basis):
    nrows, ncols = basis[0].shape
    size = nrows*ncols
    ret = np.zeros((len(basis), size), dtype=complex)
    for j, b in enumerate(basis):
        ret[j] = np.array(b).reshape((1, size), order='F').conj()
    return ret


@of('TomographyFitter._preparation_op')
def tf_prepop(self, label, prep_matrix_fn):
    if label is None:
        return np.eye(1, dtype=complex)
    op = np.eye(1, dtype=complex)
    for l in label:
        op = np.kron(prep_matrix_fn(l), op)
    return op


@of('TomographyFitter._measurement_ops')
def tf_measops(self, label, meas_matrix_fn):
    ops = []
    for outcomes in sorted(it.product((0, 1), repeat=len(label))):
        op = np.eye(1, dtype=complex)
        for m, o in zip(reversed(label), outcomes):
            op = np.kron(op, meas_matrix_fn(m, o))
        ops.append(op)
    return ops


# ------------------------------------------------------------------ fits

@of('TomographyFitter.fit', given={'method': 'lstsq'}, cls='TomographyFitter',
    no_inline=('_fitter_data', 'lstsq_fit', 'cvx_fit', '_check_for_sdp_solver'))
@of('TomographyFitter.fit', given={'method': 'cvx'}, cls='TomographyFitter',
    no_inline=('_fitter_data', 'lstsq_fit', 'cvx_fit', '_check_for_sdp_solver'))
@of('TomographyFitter.fit', given={'method': 'bogus'}, cls='TomographyFitter',
    no_inline=('_fitter_data', 'lstsq_fit', 'cvx_fit', '_check_for_sdp_solver'))
@of('TomographyFitter.fit', cls='TomographyFitter',
    no_inline=('_fitter_data', 'lstsq_fit', 'cvx_fit', '_check_for_sdp_solver'))
def tf_fit(self, method='auto', standard_weights=True, beta=0.5, psd=True, trace=None,
           trace_preserving=False, **kwargs):
    data, basis_matrix, weights = self._fitter_data(standard_weights, beta)
    if method == 'auto':
        self._check_for_sdp_solver()
        method = 'cvx' if self._HAS_SDP_SOLVER_NOT_SCS else 'lstsq'
    if method == 'lstsq':
        return lstsq_fit(data, basis_matrix, weights=weights, psd=psd, trace=trace, **kwargs)
    if method == 'cvx':
        return cvx_fit(data, basis_matrix, weights=weights, psd=psd, trace=trace,
                       trace_preserving=trace_preserving, **kwargs)
    raise ValueError


@of('StateTomographyFitter.__init__', attrs=(),
    no_inline=('qiskit.ignis.verification.tomography.fitters.base_fitter.'
               'TomographyFitter.__init__',))
def sf_init(self, result, circuits, meas_basis='Pauli'):
    TomographyFitter.__init__(self, result, circuits, meas_basis, None)


@of('StateTomographyFitter.fit', no_inline=('_fitter_data', 'lstsq_fit', 'cvx_fit'))
def sf_fit(self, method='auto', standard_weights=True, beta=0.5, **kwargs):
    return TomographyFitter.fit(self, method, standard_weights, beta, trace=1, psd=True, **kwargs)


@of('ProcessTomographyFitter.fit', given={'method': 'lstsq'},
    no_inline=('_fitter_data', 'lstsq_fit', 'cvx_fit', '_check_for_sdp_solver'))
@of('ProcessTomographyFitter.fit', given={'method': 'cvx'},
    no_inline=('_fitter_data', 'lstsq_fit', 'cvx_fit', '_check_for_sdp_solver'))
@of('ProcessTomographyFitter.fit',
    no_inline=('_fitter_data', 'lstsq_fit', 'cvx_fit', '_check_for_sdp_solver'))
def pf_fit(self, method='auto', standard_weights=True, beta=0.5, **kwargs):
    data, basis_matrix, weights = self._fitter_data(standard_weights, beta)
    cols = np.shape(basis_matrix)[1]
    dim = int(np.sqrt(np.sqrt(cols)))
    if dim**4 != cols:
        raise ValueError
    if method == 'auto':
        self._check_for_sdp_solver()
        method = 'cvx' if self._HAS_SDP_SOLVER else 'lstsq'
    if method == 'lstsq':
        return Choi(lstsq_fit(data, basis_matrix, weights=weights, trace=dim, **kwargs))
    if method == 'cvx':
        return Choi(cvx_fit(data, basis_matrix, weights=weights, trace=dim,
                            trace_preserving=True, **kwargs))
    raise ValueError


@of('lstsq_fit.lstsq_fit', no_inline=('make_positive_semidefinite',))
def lsq(data, basis_matrix, weights=None, psd=True, trace=None):
    a = basis_matrix
    b = np.array(data)
    if weights is not None:
        w = np.array(weights)
        a = w[:, None]*a
        b = w*b
    x = lstsq(a, b)[0]
    dim = int(np.sqrt(len(x)))
    if dim*dim != len(x):
        raise ValueError
    rho = x.reshape(dim, dim, order='F')
    if psd is True:
        rho = make_positive_semidefinite(rho)
    if trace is not None:
        rho *= trace/np.trace(rho)
    return rho


@of('lstsq_fit.make_positive_semidefinite')
def mkpsd(mat, epsilon=0):
    """Eigenvalues below epsilon are zeroed in ascending order and their weight spread evenly over
    the remaining larger ones."""
    if epsilon < 0:
        raise ValueError
    dim = len(mat)
    v, w = la.eigh(mat)
    for j in range(dim):
        if v[j] < epsilon:
            tmp = v[j]
            v[j] = 0.0
            for k in range(j + 1, dim):
                v[k] = v[k] + tmp/(dim - (j + 1))
    out = np.zeros([dim, dim], dtype=complex)
    for j in range(dim):
        out += v[j]*np.outer(w[:, j], np.conj(w[:, j]))
    return out


@of('cvx_fit.cvx_fit', no_inline=('partial_trace_super',), raises=False)
@of('cvx_fit.cvx_fit', no_inline=('partial_trace_super',), raises=False,
    given={'psd': True, 'trace_preserving': False, 'weights': None})
@of('cvx_fit.cvx_fit', no_inline=('partial_trace_super',), raises=False,
    given={'psd': True, 'trace_preserving': True, 'weights': None, 'trace': None})
def cvx(data, basis_matrix, weights=None, psd=True, trace=None, trace_preserving=False, **kwargs):
    if not _HAS_CVX:
        raise ImportError
    dim = int(np.sqrt(basis_matrix.shape[1]))
    rho_r = cvxpy.Variable((dim, dim), symmetric=True)
    rho_i = cvxpy.Variable((dim, dim))
    cons = [rho_i == -rho_i.T]
    if trace is not None:
        cons.append(cvxpy.trace(rho_r) == trace)
    if psd is True:
        cons.append(cvxpy.bmat([[rho_r, -rho_i], [rho_i, rho_r]]) >> 0)
    if trace_preserving is True:
        sdim = int(np.sqrt(dim))
        ptr = partial_trace_super(sdim, sdim)
        cons.append(ptr @ cvxpy.vec(rho_r) == np.identity(sdim).ravel())
        cons.append(ptr @ cvxpy.vec(rho_i) == np.zeros(sdim*sdim))
    if weights is not None:
        w = np.array(weights)
        w = w/np.sqrt(sum(w**2))
        basis_matrix = w[:, None]*basis_matrix
        data = w*data
    bm_r = np.real(basis_matrix)
    bm_i = np.imag(basis_matrix)
    if isinstance(basis_matrix, sps.spmatrix):
        bm_r = bm_r.todense()
        bm_i = bm_i.todense()
    arg = bm_r @ cvxpy.vec(rho_r) - bm_i @ cvxpy.vec(rho_i) - np.array(data)
    prob = cvxpy.Problem(cvxpy.Minimize(cvxpy.norm(arg, p=2)), cons)
    iters = 5000
    max_iters = kwargs.get('max_iters', 20000)
    if 'solver' not in kwargs:
        if 'CVXOPT' in cvxpy.installed_solvers():
            kwargs['solver'] = 'CVXOPT'
        elif 'MOSEK' in cvxpy.installed_solvers():
            kwargs['solver'] = 'MOSEK'
    solved = False
    while not solved:
        kwargs['max_iters'] = iters
        prob.solve(**kwargs)
        if prob.status in ['optimal_inaccurate', 'optimal']:
            solved = True
        elif prob.status == 'unbounded_inaccurate':
            if iters < max_iters:
                iters *= 2
            else:
                raise RuntimeError
        elif prob.status in ['infeasible', 'unbounded']:
            raise RuntimeError
        else:
            raise RuntimeError
    return rho_r.value + 1j*rho_i.value


@of('cvx_fit.partial_trace_super')
def ptrace(dim1, dim2):
    iden = sps.identity(dim1)
    out = sps.csr_matrix((dim1*dim1, dim1*dim2*dim1*dim2))
    for j in range(dim2):
        v = sps.coo_matrix(([1], ([0], [j])), shape=(1, dim2))
        t = sps.kron(iden, v.tocsr())
        out += sps.kron(t, t)
    return out


# ------------------------------------------------------------------ counts

@of('tomography.data.marginal_counts', given={'meas_qubits': True})
def mc_all(counts, meas_qubits=True, pad_zeros=False):
    return {key.replace(' ', ''): val for key, val in counts.items()}


@of('tomography.data.marginal_counts', no_inline=('count_keys',))
def mc(counts, meas_qubits=True, pad_zeros=False):
    n = len(next(iter(counts)).replace(' ', ''))
    if meas_qubits is True or n == len(meas_qubits):
        ret = {}
        for key, val in counts.items():
            ret[key.replace(' ', '')] = val
        return ret
    if meas_qubits is True:
        meas_qubits = range(n)
    qubits = sorted(meas_qubits, reverse=True)
    keys = count_keys(len(qubits))
    rgx = []
    for key in keys:
        def helper(x, y):
            if y in qubits:
                return key[qubits.index(y)] + x
            return '\\d' + x
        rgx.append(reduce(helper, range(n), ''))
    totals = []
    for m in rgx:
        c = 0
        for key, val in counts.items():
            if match(m, key.replace(' ', '')):
                c += val
        totals.append(c)
    if pad_zeros is True:
        return dict(zip(keys, totals))
    ret = {}
    for key, val in zip(keys, totals):
        if val != 0:
            ret[key] = val
    return ret


@of('tomography.data.combine_counts')
def cc(counts1, counts2):
    ret = dict(counts1)
    for key, val in counts2.items():
        if key in ret:
            ret[key] += val
        else:
            ret[key] = val
    return ret


@of('tomography.data.expectation_counts', no_inline=('marginal_counts',))
def ec(counts):
    shots = np.sum(list(counts.values()))
    numq = len(list(counts.keys())[0])
    subsets = []
    for r in range(numq):
        subsets += list(combinations(range(numq), r + 1))
    out = {numq*'0': shots}
    for subset in subsets:
        total = 0
        op = numq*['0']
        for qubit in subset:
            op[numq - 1 - qubit] = '1'
        for key, val in marginal_counts(counts, subset, pad_zeros=True).items():
            total += (-1)**key.count('1')*val
        out[''.join(op)] = total
    return out
