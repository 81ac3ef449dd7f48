"""C02: random, mutated and systematically enumerated short byte strings through the real decoder."""
import re
from m2m import benc
from dataplicity.m2m import bencode

LIMIT = 5
ALPHA = b"ilde0123:-a"
FIX = ["", "e", "i", "ie", "i-e", "i--1e", "i1-e", "i5", "l", "d", "le", "de", "li1e", "di1e", "di1ee", "d1:ae", "d1:a1:be", "dlei1ee", "ddei1ee", "d1:a", "1", "1:", "2:a", "0:", "00:", "01:a", "-1:a", "+1:a", " 1:a", "1 :a",
       "1_0:aaaaaaaaaa", "1-:a", "9223372036854775807:a", "9223372036854775808:a", "99999999999999999999999:a", "\xb2:ab", "\xb9:a", "i\xb2e", "i1_0e", "i 1e", "i+1e", "i1.0e", "i1", "i-", "i" + "9" * 30 + "e", "i" + "9" * 5000 + "e", "9" * 5000 + ":a",
       "l" * 40, "l" * 40 + "e" * 40, "d" * 20, "x", "-", ":", "e1:a", "1:ae", "l1:a", "lee", "d1:a1:b1:ce", "3:abcd", "5:abcd", "10:abcdefghij", "10:abcdefghi", "12:abc", "li1e2:ae", "d1:a2:be", "di5e", "d3:abc", "dee", "d1:aee", "i1-2e", "ili1eee"] + ["0" * z + x for z in (1, 3, 7, 15, 18, 19, 20, 25, 31, 40, 63, 64, 100, 300) for x in ("3:abc", "4:abc", "0:")]


def value(rng, d=0):
    k = rng.random()
    if k < 0.3 or d > 3:
        return rng.choice([0, 1, -1, 10, -25, 2 ** 63, rng.randrange(1000)])
    if k < 0.6:
        return rng.choice([b"", b"a", b"e", b"1:", b"x" * rng.randrange(1, 130), bytes(bytearray(rng.randrange(256) for _ in range(5)))])
    if k < 0.8:
        return [value(rng, d + 1) for _ in range(rng.randrange(4))]
    return {rng.choice([b"a", b"bb", b"", b"\xff"]): value(rng, d + 1) for _ in range(rng.randrange(3))}


def gen(rng, n):
    if n < len(FIX):
        return {"data": FIX[n]}
    k = rng.random()
    if k < 0.35:
        b = bytearray(rng.choice(ALPHA) for _ in range(rng.randrange(1, 12)))
    else:
        b = bytearray(benc(value(rng)))
        for _ in range(rng.randrange(3)):
            i = rng.randrange(len(b) + 1)
            m = rng.randrange(6)
            if m == 5:
                j = [x for x in range(len(b)) if 48 <= b[x] < 58]
                if j:
                    i = rng.choice(j)
                    b[i:i] = b"0" * rng.choice([1, 5, 20, 50])
                continue
            if m == 0:
                b = b[:i]
            elif m == 1:
                b[i:i] = bytes(bytearray([rng.choice(ALPHA) if rng.random() < 0.8 else rng.randrange(256)]))
            elif m == 2 and i < len(b):
                b[i] = rng.choice(ALPHA) if rng.random() < 0.8 else rng.randrange(256)
            elif m == 3 and i < len(b):
                del b[i]
            else:
                b[i:i] = benc(value(rng, 2))
    return {"data": bytes(b).decode("latin-1")}


def smaller(c):
    d = c["data"]
    for i in range(len(d)):
        yield {"data": d[:i] + d[i + 1:]}


class Bad(Exception):
    """Must be refused."""


class Unknown(Exception):
    """A number that is no plain decimal: refused or not, the statement does not say."""


def ref(b, i, depth=0):
    """(value, next position) of a strict reading; end marker: (None, i + 1)."""
    c = b[i:i + 1]
    if c == b"":
        raise Bad("ends too soon")
    if c == b"e":
        return None, i + 1
    if c == b"i":
        m = re.compile(br"(-?[0-9]+)e").match(b, i + 1)
        if not m:
            raise Unknown()
        return 0, m.end()
    if c in (b"l", b"d"):
        n, i = 0, i + 1
        while 1:
            v, i = ref(b, i)
            if v is None:
                if c == b"d" and n % 2:
                    raise Unknown()
                return [], i
            n += 1
    m = re.compile(br"([0-9]+):").match(b, i)
    if not m:
        raise Bad("length field is no plain decimal number")
    size = int(m.group(1)) if len(m.group(1).lstrip(b"0")) < 30 else 10 ** 30
    if size > len(b) - m.end():
        raise Bad("declared length exceeds the remaining input")
    return b[m.end():m.end() + size], m.end() + size


def domain(v):
    if type(v) is list:
        return all(domain(x) for x in v)
    if type(v) is dict:
        return all(domain(x) for x in list(v) + list(v.values()))
    return type(v) in (int, bytes)


def check(c):
    data = c["data"].encode("latin-1")
    try:
        v = bencode.decode(data)
    except bencode.DecodeError:
        return None
    except Exception as e:
        return "decode(%r) raises %r, not a decode error" % (data[:80], e)
    if not domain(v):
        return "decode(%r) returns %r" % (data[:80], v)
    try:
        r = ref(data, 0)[0]
    except Bad as e:
        return "decode(%r) returns %r although its %s" % (data[:80], v, e)
    except Unknown:
        return None
    if r is None:
        return "decode(%r) returns %r from an end marker" % (data[:80], v)
    if isinstance(r, bytes) and v != r:
        return "decode(%r) returns %r" % (data[:80], v)
