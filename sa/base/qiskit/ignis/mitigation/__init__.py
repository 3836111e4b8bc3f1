from .measurement import complete_meas_cal, tensored_meas_cal, MeasurementFilter, TensoredFilter, CompleteMeasFitter, TensoredMeasFitter
from .expval import expectation_value, expval_meas_mitigator_circuits, ExpvalMeasMitigatorFitter, CompleteExpvalMeasMitigator, TensoredExpvalMeasMitigator, CTMPExpvalMeasMitigator
