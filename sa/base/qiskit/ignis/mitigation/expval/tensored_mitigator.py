from typing import Optional, List, Dict, Tuple
import numpy as np
from .utils import counts_probability_vector, _expval_with_stddev
from .base_meas_mitigator import BaseExpvalMeasMitigator

class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):

    def __init__(self, amats: List[np.ndarray]):
        self._num_qubits = len(amats)
        self._assignment_mats = amats
        self._mitigation_mats = np.zeros([self._num_qubits, 2, 2], dtype=float)
        self._gammas = np.zeros(self._num_qubits, dtype=float)
        for i in range(self._num_qubits):
            mat = self._assignment_mats[i]
            error0 = mat[1, 0]
            error1 = mat[0, 1]
            self._gammas[i] = (1 + abs(error0 - error1)) / (1 - error0 - error1)
            try:
                ainv = np.linalg.inv(mat)
            except np.linalg.LinAlgError:
                ainv = np.linalg.pinv(mat)
            self._mitigation_mats[i] = ainv

    def expectation_value(self, counts: Dict, diagonal: Optional[np.ndarray]=None, qubits: Optional[List[int]]=None, clbits: Optional[List[int]]=None) -> Tuple[float, float]:
        probs, shots = counts_probability_vector(counts, clbits=clbits, return_shots=True)
        num_qubits = int(np.log2(probs.shape[0]))
        if qubits is not None:
            ainvs = self._mitigation_mats[list(qubits)]
        else:
            ainvs = self._mitigation_mats
        if diagonal is None:
            diagonal = self._z_diagonal(2 ** num_qubits)
        coeffs = np.reshape(diagonal, num_qubits * [2])
        einsum_args = [coeffs, list(range(num_qubits))]
        for i, ainv in enumerate(reversed(ainvs)):
            einsum_args += [ainv.T, [num_qubits + i, i]]
        einsum_args += [list(range(num_qubits, 2 * num_qubits))]
        coeffs = np.einsum(*einsum_args).ravel()
        return _expval_with_stddev(coeffs, probs, shots)

    def mitigation_matrix(self, qubits: List[int]=None) -> np.ndarray:
        if qubits is None:
            qubits = list(range(self._num_qubits))
        if isinstance(qubits, int):
            qubits = [qubits]
        mat = self._mitigation_mats[qubits[0]]
        for i in qubits[1:]:
            mat = np.kron(self._mitigation_mats[i], mat)
        return mat

    def assignment_matrix(self, qubits: List[int]=None) -> np.ndarray:
        if qubits is None:
            qubits = list(range(self._num_qubits))
        if isinstance(qubits, int):
            qubits = [qubits]
        mat = self._assignment_mats[qubits[0]]
        for i in qubits[1:]:
            mat = np.kron(self._assignment_mats[i], mat)
        return mat

    def assignment_fidelity(self, qubits: Optional[List[int]]=None) -> float:
        if qubits is None:
            qubits = list(range(self._num_qubits))
        if isinstance(qubits, int):
            qubits = [qubits]
        fid = 1.0
        for i in qubits:
            fid *= np.mean(self._assignment_mats[i].diagonal())
        return fid

    def _compute_gamma(self, qubits=None):
        if qubits is None:
            gammas = self._gammas
        else:
            gammas = self._gammas[list(qubits)]
        return np.product(gammas)
