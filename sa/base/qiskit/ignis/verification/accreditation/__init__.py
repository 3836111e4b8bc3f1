from .circuits import AccreditationCircuits
from .fitters import AccreditationFitter
from .qotp import QOTP, QOTPCorrectCounts
