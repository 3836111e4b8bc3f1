from .filters import DiscriminationFilter
from .iq_discriminators import IQDiscriminationFitter, LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator
