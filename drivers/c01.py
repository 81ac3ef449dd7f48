"""C01: random values through the real encoder and decoder, against an independent encoder."""
from dataplicity.m2m import bencode

LIMIT = 10
BAD = {"None": None, "1.5": 1.5, "0.0": 0.0, "nan": float("nan"), "set": {1}, "frozenset": frozenset(), "object": object(), "complex": 1j, "bytearray": bytearray(b"a"), "range": range(2), "lone": "\ud800", "type": int}
BYTES = ["", "a", "e", "i1e", "1:a", "\xff", "\x00", "d", "l", "aa", "ab", "b", ":"]


def value(rng, d, bad):
    k = rng.random()
    if k < 0.25 or d > 4:
        return ["i", rng.choice([0, 1, -1, 9, 10, -10, 255, 2 ** 31, -2 ** 63, 2 ** 64, 10 ** 25, rng.randrange(-1000, 1000)])]
    if k < 0.3:
        return ["B", rng.random() < 0.5]
    if k < 0.5:
        return ["b", rng.choice(BYTES + ["x" * rng.choice([9, 10, 99, 100, 1000, 1000, 9999, 10000] + [100000, 1048577] * (rng.random() < 0.05)), "".join(chr(rng.randrange(256)) for _ in range(rng.randrange(12)))])]
    if k < 0.6:
        return ["t", rng.choice(["", "abc", "\xe9", "\u20ac\u20ac", "\U0001f600", "e", "x" * 11])]
    if k < 0.6 + 0.1 * bad:
        return ["x", rng.choice(sorted(BAD))]
    if k < 0.84:
        return [rng.choice("lllu"), [value(rng, d + 1, bad) for _ in range(rng.randrange(4))]]
    ks = {}
    for _ in range(rng.randrange(5)):
        q = ["b", rng.choice(BYTES)]
        if bad and rng.random() < 0.15:
            q = rng.choice([["t", "a"], ["i", 1], ["B", True], ["x", "None"], ["u", []]])
        ks[str(q)] = [q, value(rng, d + 1, bad)]
    v = list(ks.values())
    rng.shuffle(v)
    return ["d", v]


def gen(rng, n):
    if 65 <= n < 72:        # lengths of any number of digits
        return {"v": ["b", "x" * (10 ** (n - 64) - n % 2)], "tail": ""}
    if n < len(BAD) * 5:
        b = ["x", sorted(BAD)[n // 5]]
        return {"v": [b, ["l", [["i", 1], b]], ["u", [b]], ["d", [[["b", "k"], b]]], ["l", [["d", [[["b", "a"], ["l", [b]]]]]]]][n % 5], "tail": ""}
    return {"v": value(rng, 0, rng.random() < 0.3), "tail": rng.choice(["", "", "e", "i5e", "1:a", "\xff", "x", "0", "12"])}


def smaller(c):
    def sub(v):
        if v[0] in "lu":
            for i, x in enumerate(v[1]):
                yield x
                yield [v[0], v[1][:i] + v[1][i + 1:]]
                for y in sub(x):
                    yield [v[0], v[1][:i] + [y] + v[1][i + 1:]]
        elif v[0] == "d":
            for i, (k, x) in enumerate(v[1]):
                yield x
                yield ["d", v[1][:i] + v[1][i + 1:]]
                for y in sub(x):
                    yield ["d", v[1][:i] + [[k, y]] + v[1][i + 1:]]
        elif v[0] in "bt" and v[1]:
            yield [v[0], v[1][:len(v[1]) // 2]]
            yield [v[0], v[1][:-1]]
    for v in sub(c["v"]):
        yield dict(c, v=v)
    if c["tail"]:
        yield dict(c, tail="")


def real(v):
    k, x = v
    if k == "x":
        return BAD[x]
    if k == "b":
        return x.encode("latin-1")
    if k == "l":
        return [real(y) for y in x]
    if k == "u":
        return tuple(real(y) for y in x)
    if k == "d":
        return {real(a): real(b) for a, b in x}
    return x


class Refuse(Exception):
    pass


def enc(v):
    """(canonical bytes, value decoded) of a value, independently."""
    t = type(v)
    if t in (int, bool):
        return b"i%de" % int(v), int(v)
    if t is str:
        try:
            v = v.encode("utf-8")
        except UnicodeEncodeError:
            raise Refuse()
        t = bytes
    if t is bytes:
        return b"%d:" % len(v) + v, v
    if t in (list, tuple):
        p = [enc(x) for x in v]
        return b"l" + b"".join(a for a, b in p) + b"e", [b for a, b in p]
    if t is dict:
        if any(type(k) is not bytes for k in v):
            raise Refuse()
        p = [(k, enc(k)[0], enc(v[k])) for k in sorted(v)]
        return b"d" + b"".join(a + b[0] for k, a, b in p) + b"e", {k: b[1] for k, a, b in p}
    raise Refuse()


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is list:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return set(a) == set(b) and all(type(k) is bytes for k in a) and all(same(a[k], b[k]) for k in a)
    return a == b


def short(v):
    t = repr(v)
    return t if len(t) < 300 else "%s... (%d characters)" % (t[:200], len(t))


def dec(data, want, what):
    try:
        got = bencode.decode(data)
    except Exception as e:
        return "decoding %s %r fails with %r" % (what, data[:80], e)
    if not same(got, want):
        return "decoding %s %r gives %s instead of %s" % (what, data[:80], short(got), short(want))


def check(c):
    v = real(c["v"])
    try:
        want, back = enc(v)
    except Refuse:
        try:
            r = bencode.encode(v)
        except Exception:
            return None
        return "encode(%r) gives %s, not an exception" % (v, short(r))
    try:
        r = bencode.encode(v)
    except Exception as e:
        return "encode(%s) fails with %r" % (short(v), e)
    if r != want:
        return "encode(%s) gives %s instead of %s" % (short(v), short(r), short(want))
    tail = c["tail"].encode("latin-1")
    return dec(want, back, "the encoding") or dec(want + tail, back, "the encoding, followed by other bytes,") or dec(b"l" + want + b"1:z" + want + b"e" + tail, [back, b"z", back], "a list of the encoding, a string and the encoding")
