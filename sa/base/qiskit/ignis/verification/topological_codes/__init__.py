from .circuits import RepetitionCode
from .fitters import GraphDecoder
from .fitters import lookuptable_decoding
from .fitters import postselection_decoding
