from typing import Optional, List, Dict, Tuple
import numpy as np
from qiskit.exceptions import QiskitError
from .utils import counts_probability_vector, _expval_with_stddev
from .base_meas_mitigator import BaseExpvalMeasMitigator

class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):

    def __init__(self, amat: np.ndarray):
        self._num_qubits = int(np.log2(amat.shape[0]))
        self._assignment_mat = amat
        self._mitigation_mats = {}

    def expectation_value(self, counts: Dict, diagonal: Optional[np.ndarray]=None, qubits: Optional[List[int]]=None, clbits: Optional[List[int]]=None) -> Tuple[float, float]:
        probs, shots = counts_probability_vector(counts, clbits=clbits, qubits=qubits, return_shots=True)
        num_qubits = int(np.log2(probs.shape[0]))
        if qubits is None:
            qubits = tuple(range(num_qubits))
        if len(qubits) != num_qubits:
            raise QiskitError('Num qubits does not match number of clbits.')
        mit_mat = self.mitigation_matrix(qubits)
        if diagonal is None:
            diagonal = self._z_diagonal(2 ** num_qubits)
        coeffs = mit_mat.T.dot(diagonal)
        return _expval_with_stddev(coeffs, probs, shots)

    def mitigation_matrix(self, qubits: List[int]=None) -> np.ndarray:
        if qubits is None:
            qubits = tuple(range(self._num_qubits))
        else:
            qubits = tuple(sorted(qubits))
        if qubits not in self._mitigation_mats:
            marginal_matrix = self.assignment_matrix(qubits)
            try:
                mit_mat = np.linalg.inv(marginal_matrix)
            except np.linalg.LinAlgError:
                mit_mat = np.linalg.pinv(marginal_matrix)
            self._mitigation_mats[qubits] = mit_mat
        return self._mitigation_mats[qubits]

    def assignment_matrix(self, qubits: List[int]=None) -> np.ndarray:
        if qubits is None:
            return self._assignment_mat
        if isinstance(qubits, int):
            qubits = [qubits]
        axis = tuple([self._num_qubits - 1 - i for i in set(range(self._num_qubits)).difference(qubits)])
        num_qubits = len(qubits)
        new_amat = np.zeros(2 * [2 ** num_qubits], dtype=float)
        for i, col in enumerate(self._assignment_mat.T[self._keep_indexes(qubits)]):
            new_amat[i] = np.reshape(col, self._num_qubits * [2]).sum(axis=axis).reshape([2 ** num_qubits])
        new_amat = new_amat.T
        return new_amat

    @staticmethod
    def _keep_indexes(qubits):
        indexes = [0]
        for i in sorted(qubits):
            indexes += [idx + (1 << i) for idx in indexes]
        return indexes

    def _compute_gamma(self, qubits=None):
        mitmat = self.mitigation_matrix(qubits=qubits)
        return np.max(np.sum(np.abs(mitmat), axis=0))
