from typing import Optional
import numpy as np
from scipy import linalg as la
from scipy.linalg import lstsq

def lstsq_fit(data: np.array, basis_matrix: np.array, weights: Optional[np.array]=None, psd: bool=True, trace: Optional[int]=None) -> np.array:
    meas_matrix = basis_matrix
    exp_values = np.array(data)
    if weights is not None:
        weights_array = np.array(weights)
        meas_matrix = weights_array[:, None] * meas_matrix
        exp_values = weights_array * exp_values
    rho_fit, _, _, _ = lstsq(meas_matrix, exp_values)
    size = len(rho_fit)
    dim = int(np.sqrt(size))
    if dim * dim != size:
        raise ValueError('fitted vector is not a square matrix.')
    rho_fit = rho_fit.reshape(dim, dim, order='F')
    if psd is True:
        rho_fit = make_positive_semidefinite(rho_fit)
    if trace is not None:
        rho_fit *= trace / np.trace(rho_fit)
    return rho_fit

def make_positive_semidefinite(mat: np.array, epsilon: Optional[float]=0) -> np.array:
    if epsilon < 0:
        raise ValueError('epsilon must be non-negative.')
    dim = len(mat)
    v, w = la.eigh(mat)
    for j in range(dim):
        if v[j] < epsilon:
            tmp = v[j]
            v[j] = 0.0
            x = 0.0
            for k in range(j + 1, dim):
                x += tmp / (dim - (j + 1))
                v[k] = v[k] + tmp / (dim - (j + 1))
    mat_psd = np.zeros([dim, dim], dtype=complex)
    for j in range(dim):
        mat_psd += v[j] * np.outer(w[:, j], np.conj(w[:, j]))
    return mat_psd
