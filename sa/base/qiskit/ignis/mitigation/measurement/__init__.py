from .circuits import complete_meas_cal, tensored_meas_cal
from .filters import MeasurementFilter, TensoredFilter
from .fitters import CompleteMeasFitter, TensoredMeasFitter
