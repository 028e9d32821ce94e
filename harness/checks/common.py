"""Observation helpers shared by checks."""
import sut
from sut import Bad


def rng(seed):
    import random
    return random.Random(seed)
