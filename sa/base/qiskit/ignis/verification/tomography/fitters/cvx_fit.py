from typing import Optional
import numpy as np
from scipy import sparse as sps
try:
    import cvxpy
    _HAS_CVX = True
except ImportError:
    _HAS_CVX = False

def cvx_fit(data: np.array, basis_matrix: np.array, weights: Optional[np.array]=None, psd: bool=True, trace: Optional[int]=None, trace_preserving: bool=False, **kwargs) -> np.array:
    if not _HAS_CVX:
        raise ImportError("The CVXPY package is required to use the cvx_fit() function. You can install it with 'pip install cvxpy' or use a `lstsq` fitter instead of cvx_fit.")
    dim = int(np.sqrt(basis_matrix.shape[1]))
    rho_r = cvxpy.Variable((dim, dim), symmetric=True)
    rho_i = cvxpy.Variable((dim, dim))
    cons = [rho_i == -rho_i.T]
    if trace is not None:
        cons.append(cvxpy.trace(rho_r) == trace)
    if psd is True:
        rho = cvxpy.bmat([[rho_r, -rho_i], [rho_i, rho_r]])
        cons.append(rho >> 0)
    if trace_preserving is True:
        sdim = int(np.sqrt(dim))
        ptr = partial_trace_super(sdim, sdim)
        cons.append(ptr @ cvxpy.vec(rho_r) == np.identity(sdim).ravel())
        cons.append(ptr @ cvxpy.vec(rho_i) == np.zeros(sdim * sdim))
    if weights is not None:
        w = np.array(weights)
        w = w / np.sqrt(sum(w ** 2))
        basis_matrix = w[:, None] * basis_matrix
        data = w * data
    bm_r = np.real(basis_matrix)
    bm_i = np.imag(basis_matrix)
    if isinstance(basis_matrix, sps.spmatrix):
        bm_r = bm_r.todense()
        bm_i = bm_i.todense()
    arg = bm_r @ cvxpy.vec(rho_r) - bm_i @ cvxpy.vec(rho_i) - np.array(data)
    obj = cvxpy.Minimize(cvxpy.norm(arg, p=2))
    prob = cvxpy.Problem(obj, cons)
    iters = 5000
    max_iters = kwargs.get('max_iters', 20000)
    if 'solver' not in kwargs:
        if 'CVXOPT' in cvxpy.installed_solvers():
            kwargs['solver'] = 'CVXOPT'
        elif 'MOSEK' in cvxpy.installed_solvers():
            kwargs['solver'] = 'MOSEK'
    problem_solved = False
    while not problem_solved:
        kwargs['max_iters'] = iters
        prob.solve(**kwargs)
        if prob.status in ['optimal_inaccurate', 'optimal']:
            problem_solved = True
        elif prob.status == 'unbounded_inaccurate':
            if iters < max_iters:
                iters *= 2
            else:
                raise RuntimeError('CVX fit failed, probably not enough iterations for the solver')
        elif prob.status in ['infeasible', 'unbounded']:
            raise RuntimeError('CVX fit failed, problem status {} which should not happen'.format(prob.status))
        else:
            raise RuntimeError('CVX fit failed, reason unknown')
    rho_fit = rho_r.value + 1j * rho_i.value
    return rho_fit

def partial_trace_super(dim1: int, dim2: int) -> np.array:
    iden = sps.identity(dim1)
    ptr = sps.csr_matrix((dim1 * dim1, dim1 * dim2 * dim1 * dim2))
    for j in range(dim2):
        v_j = sps.coo_matrix(([1], ([0], [j])), shape=(1, dim2))
        tmp = sps.kron(iden, v_j.tocsr())
        ptr += sps.kron(tmp, tmp)
    return ptr
