from .analysis import ordered_list_generator
from .analysis import composite_pauli_z
from .analysis import composite_pauli_z_expvalue
from .analysis import Plotter
from .analysis import rho_to_fidelity
from .linear import get_measurement_circ
from .linear import get_ghz_simple
from .linear import get_ghz_mqc
from .linear import get_ghz_mqc_para
from .linear import get_ghz_po
from .linear import get_ghz_po_para
from .parallelize import BConfig
