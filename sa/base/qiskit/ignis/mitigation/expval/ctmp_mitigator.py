import logging
from typing import Dict, Optional, List, Tuple
import numpy as np
import scipy.linalg as la
import scipy.sparse as sps
from qiskit.exceptions import QiskitError
from qiskit.ignis.numba import jit_fallback
from .base_meas_mitigator import BaseExpvalMeasMitigator
from .utils import counts_probability_vector
from .ctmp_generator_set import Generator
logger = logging.getLogger(__name__)

class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):

    def __init__(self, generators: List[Generator], rates: List[float], num_qubits: Optional[int]=None, seed: Optional=None):
        if num_qubits is None:
            self._num_qubits = 1 + max([max([max(gen[2]) for gen in generators])])
        else:
            self._num_qubits = num_qubits
        nz_rates = []
        nz_generators = []
        threshold = 1e-05
        for rate, gen in zip(rates, generators):
            if rate > threshold:
                nz_rates.append(rate)
                nz_generators.append(gen)
        self._generators = nz_generators
        self._rates = np.array(nz_rates, dtype=float)
        self._generator_mats = {}
        self._noise_strengths = {}
        self._sampling_mats = {}
        self._rng = None
        self.seed(seed)

    def expectation_value(self, counts: Dict, diagonal: Optional[np.ndarray]=None, qubits: Optional[List[int]]=None, clbits: Optional[List[int]]=None) -> Tuple[float, float]:
        if qubits is None:
            qubits = list(range(self._num_qubits))
        probs, shots = counts_probability_vector(counts, clbits=clbits, qubits=qubits, num_qubits=len(qubits), return_shots=True)
        if diagonal is None:
            diagonal = self._z_diagonal(2 ** len(qubits))
        diagonal = np.asarray(diagonal, dtype=probs.dtype)
        gamma = self.noise_strength(qubits)
        bmat = self._sampling_matrix(qubits)
        values = bmat.data
        indices = np.asarray(bmat.indices, dtype=int)
        indptrs = np.asarray(bmat.indptr, dtype=int)
        shots = sum(counts.values())
        min_delta = 0.05
        shots_delta = max(4 / min_delta ** 2, shots)
        num_samples = int(np.ceil(shots_delta * np.exp(2 * gamma)))
        expval = 0
        batch_size = 50000
        samples_set = num_samples // batch_size * [batch_size] + [num_samples % batch_size]
        for sample_shots in samples_set:
            samples, sample_signs = self._ctmp_inverse(sample_shots, probs, gamma, values, indices, indptrs, self._rng)
            expval += diagonal[samples[sample_signs == 0]].sum()
            expval -= diagonal[samples[sample_signs == 1]].sum()
        expval = np.exp(2 * gamma) / num_samples * expval
        stddev = np.exp(2 * gamma) / np.sqrt(shots)
        return (expval, stddev)

    def generator_matrix(self, qubits: List[int]=None) -> sps.coo_matrix:
        if qubits is None:
            qubits = tuple(range(self._num_qubits))
        else:
            qubits = tuple(sorted(qubits))
        if qubits not in self._generator_mats:
            qubits_set = set(qubits)
            g_mat = sps.coo_matrix(2 * (2 ** len(qubits),), dtype=float)
            for gen, rate in zip(self._generators, self._rates):
                if qubits_set.issuperset(gen[2]):
                    g_mat += rate * self._generator_to_coo_matrix(gen, qubits)
            self._generator_mats[qubits] = sps.coo_matrix(g_mat)
        return self._generator_mats[qubits]

    def mitigation_matrix(self, qubits: List[int]=None) -> np.ndarray:
        gmat = self.generator_matrix(qubits)
        gmat = np.flip(gmat.todense())
        return la.expm(-gmat)

    def assignment_matrix(self, qubits: List[int]=None) -> np.ndarray:
        gmat = self.generator_matrix(qubits)
        gmat = np.flip(gmat.todense())
        return la.expm(gmat)

    def noise_strength(self, qubits: Optional[int]=None) -> float:
        if qubits is None:
            qubits = tuple(range(self._num_qubits))
        else:
            qubits = tuple(sorted(qubits))
        if qubits not in self._noise_strengths:
            g_mat = self.generator_matrix(qubits)
            if g_mat.row.size == 0:
                gamma = 0
            else:
                gamma = np.max(-g_mat.data[g_mat.row == g_mat.col])
            if gamma < 0:
                raise QiskitError('gamma should be non-negative, found gamma={}'.format(gamma))
            self._noise_strengths[qubits] = gamma
        return self._noise_strengths[qubits]

    def seed(self, value=None):
        if isinstance(value, np.random.Generator):
            self._rng = value
        else:
            self._rng = np.random.default_rng(value)

    def _compute_gamma(self, qubits=None):
        if qubits is not None:
            raise NotImplementedError('qubits kwarg is not yet implemented for CTMP method.')
        gamma = self.noise_strength(qubits)
        return np.exp(2 * gamma)

    @staticmethod
    def _ctmp_inverse(n_samples: int, probs: np.ndarray, gamma: float, csc_data: np.ndarray, csc_indices: np.ndarray, csc_indptrs: np.ndarray, rng: np.random.Generator) -> Tuple[Tuple[int], Tuple[int]]:
        alphas = rng.poisson(lam=gamma, size=n_samples)
        signs = np.mod(alphas, 2)
        x_vals = rng.choice(len(probs), size=n_samples, p=probs)
        r_vals = rng.random(size=alphas.sum())
        y_vals = np.zeros(x_vals.size, dtype=int)
        _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices, csc_indptrs)
        return (y_vals, signs)

    def _sampling_matrix(self, qubits: Optional[int]=None) -> sps.csc_matrix:
        if qubits is None:
            qubits = tuple(range(self._num_qubits))
        else:
            qubits = tuple(sorted(qubits))
        if qubits not in self._sampling_mats:
            gmat = self.generator_matrix(qubits)
            gamma = self.noise_strength(qubits)
            bmat = sps.eye(2 ** len(qubits))
            if gamma != 0:
                bmat = bmat + gmat / gamma
            self._sampling_mats[qubits] = bmat.tocsc()
        return self._sampling_mats[qubits]

    @staticmethod
    def _tensor_list(parts: List[np.ndarray]) -> np.ndarray:
        res = parts[0]
        for mat in parts[1:]:
            res = sps.kron(res, mat)
        return res

    def _generator_to_coo_matrix(self, gen: Generator, qubits: Tuple[int]) -> sps.coo_matrix:
        ket_bra_dict = {'00': np.array([[1, 0], [0, 0]]), '01': np.array([[0, 1], [0, 0]]), '10': np.array([[0, 0], [1, 0]]), '11': np.array([[0, 0], [0, 1]])}
        s_b, s_a, gen_qubits = gen
        num_qubits = len(qubits)
        ba_strings = list(map(lambda x: ''.join(x), list(zip(*[s_b, s_a]))))
        aa_strings = list(map(lambda x: ''.join(x), list(zip(*[s_a, s_a]))))
        ba_mats = [sps.eye(2, 2).tocoo()] * num_qubits
        aa_mats = [sps.eye(2, 2).tocoo()] * num_qubits
        for qubit, s_ba, s_aa in zip(gen_qubits, ba_strings, aa_strings):
            idx = qubits.index(qubit)
            ba_mats[idx] = ket_bra_dict[s_ba]
            aa_mats[idx] = ket_bra_dict[s_aa]
        res = sps.coo_matrix(2 * (2 ** num_qubits,), dtype=float)
        res = res + self._tensor_list(ba_mats[::-1]) - self._tensor_list(aa_mats[::-1])
        return res

@jit_fallback
def _choice(inds: np.ndarray, probs: np.ndarray, r_val: float) -> int:
    probs = np.cumsum(probs)
    n_probs = len(probs)
    for i in range(n_probs):
        if r_val < probs[i]:
            return inds[i]
    return inds[-1]

@jit_fallback
def _markov_chain_compiled(y_vals: np.ndarray, x_vals: np.ndarray, r_vals: np.ndarray, alpha_vals: np.ndarray, csc_vals: np.ndarray, csc_indices: np.ndarray, csc_indptrs: np.ndarray):
    num_samples = y_vals.size
    r_pos = 0
    for i in range(num_samples):
        y = x_vals[i]
        for _ in range(alpha_vals[i]):
            begin_slice = csc_indptrs[y]
            end_slice = csc_indptrs[y + 1]
            probs = csc_vals[begin_slice:end_slice]
            inds = csc_indices[begin_slice:end_slice]
            y = _choice(inds, probs, r_vals[r_pos])
            r_pos += 1
        y_vals[i] = y
