from .circuits import ampcal_1Q_circuits, anglecal_1Q_circuits, ampcal_cx_circuits, anglecal_cx_circuits
from .fitters import AmpCalFitter, AngleCalFitter, AmpCalCXFitter, AngleCalCXFitter
