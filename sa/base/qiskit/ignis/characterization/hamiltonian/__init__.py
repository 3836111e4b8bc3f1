from .circuits import zz_circuits
from .fitters import ZZFitter
