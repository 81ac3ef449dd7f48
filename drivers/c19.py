"""C19: see rd.py."""
import rd
from rd import smaller


def gen(rng, n):
    return rd.gen(rng, n, ["open","read","write","write","close"])


check = rd.check19
