from .discriminator import DiscriminationFilter, IQDiscriminationFitter, LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator
