from typing import Optional, Dict, List, Union
from qiskit.result import Result
from qiskit.exceptions import QiskitError
from .utils import calibration_data, assignment_matrix
from .complete_mitigator import CompleteExpvalMeasMitigator
from .tensored_mitigator import TensoredExpvalMeasMitigator
from .ctmp_mitigator import CTMPExpvalMeasMitigator
from .ctmp_fitter import fit_ctmp_meas_mitigator
from .ctmp_generator_set import Generator

class ExpvalMeasMitigatorFitter:

    def __init__(self, result: Result, metadata: List[Dict[str, any]]):
        self._num_qubits = None
        self._cal_data = None
        self._mitigator = None
        self._cal_data, self._num_qubits, self._method = calibration_data(result, metadata)

    @property
    def mitigator(self):
        if self._mitigator is None:
            raise QiskitError('Mitigator has not been fitted. Run `fit` first.')
        return self._mitigator

    def fit(self, method: Optional[str]=None, generators: Optional[List[Generator]]=None) -> Union[CompleteExpvalMeasMitigator, TensoredExpvalMeasMitigator, CTMPExpvalMeasMitigator]:
        if method is None:
            method = self._method
        if method == 'complete':
            amat = assignment_matrix(self._cal_data, self._num_qubits)
            self._mitigator = CompleteExpvalMeasMitigator(amat)
        elif method == 'tensored':
            amats = []
            for qubit in range(self._num_qubits):
                amat = assignment_matrix(self._cal_data, self._num_qubits, [qubit])
                amats.append(amat)
            self._mitigator = TensoredExpvalMeasMitigator(amats)
        elif method in ['CTMP', 'ctmp']:
            self._mitigator = fit_ctmp_meas_mitigator(self._cal_data, self._num_qubits, generators)
        else:
            raise QiskitError('Invalid expval measurement error mitigation method {}'.format(method))
        return self._mitigator
