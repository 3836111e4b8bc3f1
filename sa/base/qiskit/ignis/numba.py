import logging
logger = logging.getLogger(__name__)
try:
    import numba
    _HAS_NUMBA = True
except ImportError:
    _HAS_NUMBA = False
    logger.info('Numba not installed, certain functions have improved performance if Number is installed: https://pypi.org/project/numba/')

def jit_fallback(func):
    if _HAS_NUMBA:
        return numba.jit(nopython=True)(func)
    else:
        return func
