"""Generators held by objects."""
import numpy as np


@of('CTMPExpvalMeasMitigator.seed')
def ctmp_seed(self, value=None):
    if isinstance(value, np.random.Generator):
        self._rng = value
    else:
        self._rng = np.random.default_rng(value)
