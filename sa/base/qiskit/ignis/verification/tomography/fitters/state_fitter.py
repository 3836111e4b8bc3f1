from typing import List, Union
import numpy as np
from qiskit.result import Result
from qiskit import QuantumCircuit
from ..basis import TomographyBasis
from .base_fitter import TomographyFitter

class StateTomographyFitter(TomographyFitter):

    def __init__(self, result: Result, circuits: List[QuantumCircuit], meas_basis: Union[TomographyBasis, str]='Pauli'):
        super().__init__(result, circuits, meas_basis, None)

    def fit(self, method: str='auto', standard_weights: bool=True, beta: float=0.5, **kwargs) -> np.array:
        return super().fit(method, standard_weights, beta, trace=1, psd=True, **kwargs)
