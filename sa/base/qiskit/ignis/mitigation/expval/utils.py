import logging
from functools import partial
from typing import Optional, List, Dict, Tuple
import numpy as np
from qiskit.exceptions import QiskitError
from qiskit.result import Counts, Result
from qiskit.ignis.verification.tomography import marginal_counts, combine_counts
from qiskit.ignis.numba import jit_fallback
logger = logging.getLogger(__name__)

def expectation_value(counts: Counts, diagonal: Optional[np.ndarray]=None, qubits: Optional[List[int]]=None, clbits: Optional[List[int]]=None, meas_mitigator: Optional=None) -> Tuple[float, float]:
    if meas_mitigator is not None:
        return meas_mitigator.expectation_value(counts, diagonal=diagonal, clbits=clbits, qubits=qubits)
    if clbits is not None:
        counts = marginal_counts(counts, meas_qubits=clbits)
    probs = np.array(list(counts.values()))
    shots = probs.sum()
    probs = probs / shots
    if diagonal is None:
        coeffs = np.array([(-1) ** (key.count('1') % 2) for key in counts.keys()], dtype=probs.dtype)
    else:
        diagonal = np.asarray(diagonal)
        keys = [int(key, 2) for key in counts.keys()]
        coeffs = np.asarray(diagonal[keys], dtype=probs.dtype)
    return _expval_with_stddev(coeffs, probs, shots)

def counts_probability_vector(counts: Counts, qubits: Optional[List[int]]=None, clbits: Optional[List[int]]=None, num_qubits: Optional[int]=None, return_shots: Optional[bool]=False) -> np.ndarray:
    if clbits is not None:
        counts = marginal_counts(counts, meas_qubits=clbits)
    if num_qubits is None:
        num_qubits = len(next(iter(counts)))
    vec = np.zeros(2 ** num_qubits, dtype=float)
    shots = 0
    for key, val in counts.items():
        shots += val
        vec[int(key, 2)] = val
    vec /= shots
    if qubits is not None:
        if len(qubits) != num_qubits:
            raise QiskitError('Num qubits does not match vector length.')
        axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
        vec = np.reshape(vec, num_qubits * [2]).transpose(axes).reshape(vec.shape)
    if return_shots:
        return (vec, shots)
    return vec

def calibration_data(result: Result, metadata: List[Dict[str, any]]) -> Tuple[Dict[int, Dict[int, int]], int]:
    cal_data = {}
    num_qubits = None
    method = None
    for i, meta in enumerate(metadata):
        if meta.get('experiment') == 'meas_mit':
            if num_qubits is None:
                num_qubits = len(meta['cal'])
            if method is None:
                method = meta.get('method', None)
            key = int(meta['cal'], 2)
            counts = result.get_counts(i).int_outcomes()
            if key not in cal_data:
                cal_data[key] = counts
            else:
                cal_data[key] = combine_counts(cal_data[key], counts)
    return (cal_data, num_qubits, method)

def assignment_matrix(cal_data: Dict[int, Dict[int, int]], num_qubits: int, qubits: Optional[List[int]]=None) -> np.array:
    if qubits is not None:
        qubits = np.asarray(qubits)
        dim = 1 << qubits.size
        mask = _amat_mask(qubits, num_qubits)
        accum_func = partial(_amat_accum_local, qubits, mask)
    else:
        qubits = np.array(range(num_qubits))
        dim = 1 << num_qubits
        accum_func = _amat_accum_full
    amat = np.zeros([dim, dim], dtype=float)
    for cal, counts in cal_data.items():
        counts_keys = np.array(list(counts.keys()))
        counts_values = np.array(list(counts.values()))
        accum_func(amat, cal, counts_keys, counts_values)
    renorm = amat.sum(axis=0, keepdims=True)
    if np.any(renorm == 0):
        raise QiskitError('Insufficient calibration data to fit assignment matrix on qubits {}'.format(qubits.tolist()))
    return amat / renorm

def _expval_with_stddev(coeffs: np.ndarray, probs: np.ndarray, shots: int) -> Tuple[float, float]:
    expval = coeffs.dot(probs)
    sq_expval = (coeffs ** 2).dot(probs)
    variance = (sq_expval - expval ** 2) / shots
    if variance < 0 and (not np.isclose(variance, 0)):
        logger.warning('Encountered a negative variance in expectation value calculation.(%f). Setting standard deviation of result to 0.', variance)
    stddev = np.sqrt(variance) if variance > 0 else 0.0
    return (expval, stddev)

@jit_fallback
def _amat_mask(qubits, num_qubits):
    mask = 0
    for i in range(num_qubits):
        if not np.any(qubits == i):
            mask += 1 << i
    return mask

@jit_fallback
def _amat_index(i, qubits):
    masks = 1 << qubits
    shifts = np.arange(qubits.size - 1, -1, -1)
    val = (i & masks) >> qubits << shifts
    return np.sum(val)

@jit_fallback
def _amat_accum_local(qubits, mask, mat, cal, counts_keys, counts_values):
    x_out = cal & mask
    x_ind = _amat_index(cal, qubits)
    for i in range(counts_keys.size):
        y_out = counts_keys[i] & mask
        if x_out == y_out:
            y_ind = _amat_index(counts_keys[i], qubits)
            mat[y_ind, x_ind] += counts_values[i]

@jit_fallback
def _amat_accum_full(mat, cal, counts_keys, counts_values):
    for i in range(counts_keys.size):
        mat[counts_keys[i], cal] += counts_values[i]
