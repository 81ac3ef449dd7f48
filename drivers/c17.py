"""C17: see rd.py."""
import rd
from rd import smaller


PLAIN = [p for q in rd.ESC + ["../remote2/x", "2/x", "@ABS@/remote2/x", "@ABS@/outside/secret"] for p in (q, "/" + q)]


def gen(rng, n):
    if n < len(PLAIN):      # plain attempts to leave the directory first
        return {"kind": "open", "id": "u1", "path": PLAIN[n], "fault": None, "snapdir": True, "snap": None, "rroot": "remote"}
    n -= len(PLAIN)
    if n < 2 * len(rd.IDS):
        return {"kind": ["read", "open"][n % 2], "id": rd.IDS[n // 2], "path": "a.txt", "fault": None, "snapdir": True, "snap": "old", "rroot": "remote", "offset": 0, "size": 100}
    return rd.gen(rng, n, ["open", "read", "close"])


check = rd.check17
