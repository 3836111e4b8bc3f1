import logging
import itertools as it
from typing import List, Union, Optional, Dict, Tuple, Callable
from ast import literal_eval
import numpy as np
from qiskit import QiskitError
from qiskit import QuantumCircuit
from qiskit.result import Result
from ..basis import TomographyBasis, default_basis
from ..data import marginal_counts, combine_counts, count_keys
from .lstsq_fit import lstsq_fit
from .cvx_fit import cvx_fit, _HAS_CVX
logger = logging.getLogger(__name__)

class TomographyFitter:
    _HAS_SDP_SOLVER = None
    _HAS_SDP_SOLVER_NOT_SCS = False

    def __init__(self, result: Union[Result, List[Result]], circuits: Union[List[QuantumCircuit], List[str]], meas_basis: Union[TomographyBasis, str]='Pauli', prep_basis: Union[TomographyBasis, str]='Pauli'):
        self._meas_basis = None
        self._prep_basis = None
        self.set_measure_basis(meas_basis)
        self.set_preparation_basis(prep_basis)
        self._data = {}
        if isinstance(result, Result):
            result = [result]
        self.add_data(result, circuits)

    def set_measure_basis(self, basis: Union[TomographyBasis, str]):
        self._meas_basis = default_basis(basis)
        if isinstance(self._meas_basis, TomographyBasis):
            if self._meas_basis.measurement is not True:
                raise QiskitError('Invalid measurement basis')

    def set_preparation_basis(self, basis: Union[TomographyBasis, str]):
        self._prep_basis = default_basis(basis)
        if isinstance(self._prep_basis, TomographyBasis):
            if self._prep_basis.preparation is not True:
                raise QiskitError('Invalid preparation basis')

    @property
    def measure_basis(self):
        return self._meas_basis

    @property
    def preparation_basis(self):
        return self._prep_basis

    def fit(self, method: str='auto', standard_weights: bool=True, beta: float=0.5, psd: bool=True, trace: Optional[int]=None, trace_preserving: bool=False, **kwargs) -> np.array:
        data, basis_matrix, weights = self._fitter_data(standard_weights, beta)
        if method == 'auto':
            self._check_for_sdp_solver()
            if self._HAS_SDP_SOLVER_NOT_SCS:
                method = 'cvx'
            else:
                method = 'lstsq'
        if method == 'lstsq':
            return lstsq_fit(data, basis_matrix, weights=weights, psd=psd, trace=trace, **kwargs)
        if method == 'cvx':
            return cvx_fit(data, basis_matrix, weights=weights, psd=psd, trace=trace, trace_preserving=trace_preserving, **kwargs)
        raise QiskitError('Unrecognized fit method {}'.format(method))

    @property
    def data(self):
        return self._data

    def add_data(self, results: List[Result], circuits: List[Union[QuantumCircuit, str]]):
        if len(circuits) == 0:
            raise QiskitError('No circuit data given')
        if isinstance(circuits[0], str) or len(circuits[0].cregs) == 1:
            marginalize = False
        else:
            marginalize = True
        for circ in circuits:
            counts = None
            for result in results:
                try:
                    counts = result.get_counts(circ)
                except QiskitError:
                    pass
            if counts is None:
                raise QiskitError('Result for {} not found'.format(circ.name))
            if isinstance(circ, str):
                tup = literal_eval(circ)
            elif isinstance(circ, QuantumCircuit):
                tup = literal_eval(circ.name)
            else:
                tup = circ
            if marginalize:
                labels = tup[0] if isinstance(tup[0], tuple) else tup
                counts = marginal_counts(counts, range(len(labels)))
            if tup in self._data:
                self._data[tup] = combine_counts(self._data[tup], counts)
            else:
                self._data[tup] = counts

    def _fitter_data(self, standard_weights, beta):
        if self._meas_basis:
            measurement = self._meas_basis.measurement_matrix
        else:
            measurement = None
        if self._prep_basis:
            preparation = self._prep_basis.preparation_matrix
        else:
            preparation = None
        data = []
        basis_blocks = []
        if standard_weights:
            weights = []
        else:
            weights = None
        label = next(iter(self._data))
        is_qpt = isinstance(label, tuple) and len(label) == 2 and isinstance(label[0], tuple) and isinstance(label[1], tuple)
        if is_qpt:
            ctkeys = count_keys(len(label[1]))
        else:
            ctkeys = count_keys(len(label))
        for label, cts in self._data.items():
            if isinstance(cts, dict):
                cts = np.array([cts.get(key, 0) for key in ctkeys])
            shots = np.sum(cts)
            probs = np.array(cts) / shots
            data += list(probs)
            if standard_weights is True:
                wts = self._binomial_weights(cts, beta)
                weights += list(wts)
            if is_qpt:
                prep_label = label[0]
                meas_label = label[1]
            else:
                prep_label = None
                meas_label = label
            prep_op = self._preparation_op(prep_label, preparation)
            meas_ops = self._measurement_ops(meas_label, measurement)
            block = self._basis_operator_matrix([np.kron(prep_op.T, mop) for mop in meas_ops])
            basis_blocks.append(block)
        return (data, np.vstack(basis_blocks), weights)

    def _binomial_weights(self, counts: Dict[str, int], beta: float=0.5) -> np.array:
        if isinstance(counts, dict):
            mcts = marginal_counts(counts, pad_zeros=True)
            ordered_keys = sorted(list(mcts))
            counts = np.array([mcts[k] for k in ordered_keys])
        else:
            counts = np.array(counts)
        shots = np.sum(counts)
        if beta < 0:
            raise ValueError('beta = {} must be non-negative.'.format(beta))
        if beta == 0 and (shots in counts or 0 in counts):
            beta = 0.5
            msg = 'Counts result in probabilities of 0 or 1 in binomial weights calculation. Setting hedging parameter beta={} to prevent dividing by zero.'.format(beta)
            logger.warning(msg)
        outcomes_num = len(counts)
        freqs_hedged = (counts + beta) / (shots + outcomes_num * beta)
        return np.sqrt(shots / (freqs_hedged * (1 - freqs_hedged)))

    def _basis_operator_matrix(self, basis: List[np.array]) -> np.array:
        num_ops = len(basis)
        nrows, ncols = basis[0].shape
        size = nrows * ncols
        ret = np.zeros((num_ops, size), dtype=complex)
        for j, b in enumerate(basis):
            ret[j] = np.array(b).reshape((1, size), order='F').conj()
        return ret

    def _preparation_op(self, label: Tuple[str], prep_matrix_fn: Callable[[str], np.array]) -> np.array:
        if label is None:
            return np.eye(1, dtype=complex)
        op = np.eye(1, dtype=complex)
        for label_inst in label:
            op = np.kron(prep_matrix_fn(label_inst), op)
        return op

    def _measurement_ops(self, label: Tuple[str], meas_matrix_fn: Callable[[str, int], np.array]) -> List[np.array]:
        num_qubits = len(label)
        meas_ops = []
        for outcomes in sorted(it.product((0, 1), repeat=num_qubits)):
            op = np.eye(1, dtype=complex)
            for m, outcome in zip(reversed(label), outcomes):
                op = np.kron(op, meas_matrix_fn(m, outcome))
            meas_ops.append(op)
        return meas_ops

    @classmethod
    def _check_for_sdp_solver(cls):
        if cls._HAS_SDP_SOLVER is None:
            if _HAS_CVX:
                import cvxpy
                solvers = cvxpy.installed_solvers()
                if 'CVXOPT' in solvers or 'MOSEK' in solvers:
                    cls._HAS_SDP_SOLVER_NOT_SCS = True
                    cls._HAS_SDP_SOLVER = True
                    return
                if 'SCS' in solvers:
                    try:
                        var = cvxpy.Variable((5, 5), PSD=True)
                        obj = cvxpy.Minimize(cvxpy.norm(var))
                        cvxpy.Problem(obj).solve(solver='SCS')
                        cls._HAS_SDP_SOLVER = True
                        return
                    except cvxpy.error.SolverError:
                        pass
            cls._HAS_SDP_SOLVER = False
