"""What the optional packages change: jit compilation, solver choice, simulator."""
import numba
import cvxpy
from qiskit.ignis.numba import _HAS_NUMBA
from qiskit.ignis.verification.tomography.fitters.cvx_fit import _HAS_CVX


@of('numba.jit_fallback')
def jit_fallback(func):
    if _HAS_NUMBA:
        return numba.jit(nopython=True)(func)
    return func


@of('TomographyFitter._check_for_sdp_solver', cls='TomographyFitter')
def check_solver(cls):
    if cls._HAS_SDP_SOLVER is None:
        if _HAS_CVX:
            solvers = cvxpy.installed_solvers()
            if 'CVXOPT' in solvers or 'MOSEK' in solvers:
                cls._HAS_SDP_SOLVER_NOT_SCS = True
                cls._HAS_SDP_SOLVER = True
                return
            if 'SCS' in solvers:
                try:
                    var = cvxpy.Variable((5, 5), PSD=True)
                    obj = cvxpy.Minimize(cvxpy.norm(var))
                    cvxpy.Problem(obj).solve(solver='SCS')
                    cls._HAS_SDP_SOLVER = True
                    return
                except cvxpy.error.SolverError:
                    pass
        cls._HAS_SDP_SOLVER = False
