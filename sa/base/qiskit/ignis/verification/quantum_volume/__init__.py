from .circuits import qv_circuits
from .fitters import QVFitter
