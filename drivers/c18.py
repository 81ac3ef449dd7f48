"""C18: see rd.py."""
import rd
from rd import smaller


def gen(rng, n):
    return rd.gen(rng, n, ["write"])


check = rd.check18
