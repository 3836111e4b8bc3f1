from .basis import state_tomography_circuits
from .basis import process_tomography_circuits
from .basis import gateset_tomography_circuits
from . import basis
from .fitters import StateTomographyFitter
from .fitters import ProcessTomographyFitter
from .fitters import GatesetTomographyFitter
from .fitters import TomographyFitter
from .data import marginal_counts
from .data import combine_counts
from .data import expectation_counts
from .data import count_keys
