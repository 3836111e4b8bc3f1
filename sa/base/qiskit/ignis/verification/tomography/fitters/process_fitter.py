import numpy as np
from qiskit import QiskitError
from qiskit.quantum_info.operators import Choi
from .base_fitter import TomographyFitter
from .cvx_fit import cvx_fit
from .lstsq_fit import lstsq_fit

class ProcessTomographyFitter(TomographyFitter):

    def fit(self, method: str='auto', standard_weights: bool=True, beta: float=0.5, **kwargs) -> Choi:
        data, basis_matrix, weights = self._fitter_data(standard_weights, beta)
        _, cols = np.shape(basis_matrix)
        dim = int(np.sqrt(np.sqrt(cols)))
        if dim ** 4 != cols:
            raise ValueError('Input data does not correspond to a process matrix.')
        if method == 'auto':
            self._check_for_sdp_solver()
            if self._HAS_SDP_SOLVER:
                method = 'cvx'
            else:
                method = 'lstsq'
        if method == 'lstsq':
            return Choi(lstsq_fit(data, basis_matrix, weights=weights, trace=dim, **kwargs))
        if method == 'cvx':
            return Choi(cvx_fit(data, basis_matrix, weights=weights, trace=dim, trace_preserving=True, **kwargs))
        raise QiskitError('Unrecognized fit method {}'.format(method))
