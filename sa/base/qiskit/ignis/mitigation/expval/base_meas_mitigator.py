from abc import ABC, abstractmethod
from typing import Optional, List, Dict, Tuple, Union
import numpy as np
try:
    import matplotlib.pyplot as plt
    _HAS_MATPLOTLIB = True
except ImportError:
    _HAS_MATPLOTLIB = False

class BaseExpvalMeasMitigator(ABC):

    @abstractmethod
    def expectation_value(self, counts: Dict, diagonal: Optional[Union[np.ndarray, List[complex], List[float]]]=None, qubits: Optional[List[int]]=None, clbits: Optional[List[int]]=None) -> Tuple[float, float]:
        pass

    @abstractmethod
    def mitigation_matrix(self, qubits: List[int]=None) -> np.ndarray:
        pass

    @abstractmethod
    def assignment_matrix(self, qubits: List[int]=None) -> np.ndarray:
        pass

    @abstractmethod
    def _compute_gamma(self, qubits: Optional[List[int]]=None) -> float:
        pass

    def assignment_fidelity(self, qubits: Optional[List[int]]=None) -> float:
        return self.assignment_matrix(qubits=qubits).diagonal().mean()

    def required_shots(self, delta: float, qubits: Optional[List[int]]=None) -> int:
        gamma = self._compute_gamma(qubits=qubits)
        return int(np.ceil(4 * gamma ** 2 / delta ** 2))

    def mitigation_overhead(self, qubits: Optional[List[int]]=None) -> int:
        gamma = self._compute_gamma(qubits=qubits)
        return int(np.ceil(gamma ** 2))

    def stddev_upper_bound(self, shots: int=1, qubits: Optional[List[int]]=None) -> float:
        gamma = self._compute_gamma(qubits=qubits)
        return gamma / np.sqrt(shots)

    def plot_assignment_matrix(self, qubits=None, ax=None):
        if not _HAS_MATPLOTLIB:
            raise ImportError('Plotting functions require the optional matplotlib package. Install with `pip install matplotlib`.')
        mat = self.assignment_matrix(qubits)
        if ax is None:
            figure = plt.figure()
            ax = figure.gca()
        axim = ax.matshow(mat, cmap=plt.cm.binary, clim=[0, 1])
        ax.figure.colorbar(axim)
        ax = self._plot_axis(mat, ax=ax)
        return ax

    def plot_mitigation_matrix(self, qubits=None, ax=None):
        if not _HAS_MATPLOTLIB:
            raise ImportError('Plotting functions require the optional matplotlib package. Install with `pip install matplotlib`.')
        mat = self.mitigation_matrix(qubits)
        mat_max = np.max(mat)
        mat_min = np.min(mat)
        lim = max(abs(mat_max), abs(mat_min), 1)
        if ax is None:
            figure = plt.figure()
            ax = figure.gca()
        axim = ax.matshow(mat, cmap=plt.cm.RdGy, clim=[-lim, lim])
        ax.figure.colorbar(axim, values=np.linspace(mat_min, mat_max, 100))
        ax = self._plot_axis(mat, ax=ax)
        return ax

    @staticmethod
    def _z_diagonal(dim, dtype=float):
        parity = np.zeros(dim, dtype=dtype)
        for i in range(dim):
            parity[i] = bin(i)[2:].count('1')
        return (-1) ** np.mod(parity, 2)

    @staticmethod
    def _int_to_bitstring(i, num_qubits=None):
        label = bin(i)[2:]
        if num_qubits:
            pad = num_qubits - len(label)
            if pad > 0:
                label = pad * '0' + label
        return label

    @staticmethod
    def _plot_axis(mat, ax):
        dim = len(mat)
        num_qubits = int(np.log2(dim))
        bit_labels = [BaseExpvalMeasMitigator._int_to_bitstring(i, num_qubits) for i in range(dim)]
        ax.set_xticks(np.arange(dim))
        ax.set_yticks(np.arange(dim))
        ax.set_xticklabels(bit_labels, rotation=90)
        ax.set_yticklabels(bit_labels)
        ax.set_xlabel('Prepared State')
        ax.xaxis.set_label_position('top')
        ax.set_ylabel('Measured State')
        return ax
