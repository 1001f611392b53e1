"""C28: metadata serializers return exactly the value stored."""
import itertools
import json
import os
import shutil
import struct
import tempfile

import numpy as np

from pc import Bad, Space, digits, need, prod
from forust import GradientBooster
from forust.forust import GradientBooster as Crate
from forust.serialize import NumpySerializer, ObjectSerializer, ScalerSerializer

SC, OB, NP = ScalerSerializer(), ObjectSerializer(), NumpySerializer()


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def same_array(a, b):
    return type(b) is np.ndarray and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == np.ascontiguousarray(b).tobytes()


class Store:
    """values pass through the metadata of a model that is saved and loaded"""

    def __init__(self):
        self.m = GradientBooster()
        self.items = []

    def add(self, ser, v):
        s = ser.serialize(v)
        need(isinstance(s, str), lambda: "serialising %r gives %r" % (v, s))
        self.m.insert_metadata("k%d" % len(self.items), s)
        self.items.append((ser, v))

    def check(self, st, eq=same):
        tmp = tempfile.mkdtemp(prefix="c28-")
        try:
            p = os.path.join(tmp, "m.json")
            self.m.save_booster(p)
            n = GradientBooster.load_booster(p)
        finally:
            shutil.rmtree(tmp)
        for i, (ser, v) in enumerate(self.items):
            r = ser.deserialize(n.get_metadata("k%d" % i))
            need(eq(v, r), lambda: "%s: %r (%s) comes back as %r (%s)" % (type(ser).__name__, v, type(v).__name__, r, type(r).__name__))
            st.states += 1
            st.checks += 1
        st.transitions += len(self.items)
        st.traces += 1
        st.nontrivial += 1


ALPHA = ["'", '"', "\\", "\n", "\r", "\t", "\0", "{", "}", "é", "\U0001d11e", "\ud800", "a", " ", "#", "\u2028", "\x7f", "n", "0", "x", "u", "N", "%", "$"]
F = [0.0, -0.0, 1.0, -1.5, 1e16, 1e-7, 1e300, 5e-324, 0.1, float("inf"), float("-inf"), float("nan"), 1 / 3]
I = [0, -1, 1, 2**31, 2**53 + 1, -(2**63), 2**64, 10**40]
SCALARS = F + I + ["", "a", "'", "a'b\\", "é\n", "nan", "inf", "None", "1", True, False, None]
DTYPES = ["float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "bool", ">f8", ">i4", "<u2"]


def arrays(dt):
    d = np.dtype(dt)
    if d.kind == "f":
        v = [0.0, -0.0, 1.5, -2.25, 0.1, float("inf"), float("-inf"), float("nan"), np.finfo(d).max, np.finfo(d).tiny, float(np.finfo(d).smallest_subnormal), 1 / 3]
    elif d.kind == "b":
        v = [True, False]
    else:
        v = [0, 1, 7, np.iinfo(d).max, np.iinfo(d).min, np.iinfo(d).max - 1]
    return v


SHAPES = [(0,), (1,), (5,), (), (1, 1), (2, 3), (3, 2), (0, 3), (3, 0), (2, 0, 2), (2, 3, 2), (1, 4, 1, 2), (12,)]


def spaces(th):
    out = []
    B = 256
    nchar = 0x110000

    def chars(i, st):
        s = Store()
        for c in range(i * B, min((i + 1) * B, nchar)):
            for v in (chr(c), "a" + chr(c) + "'"):
                s.add(SC, v)
                s.add(OB, v)
            if th:
                s.add(OB, {chr(c): [chr(c) + "\\"]})
        s.check(st)

    out.append(Space("characters", "every code point 0..0x10FFFF (surrogates included) alone and inside a string, both scalar and object serializer, through a saved model", (nchar + B - 1) // B, chars))
    L = 5 if th else 4
    na = len(ALPHA)

    def strings(i, st):
        s = Store()
        head = digits(i, [na, na]) if L > 2 else []
        for n in range(0, L - 1):
            for t in itertools.product(ALPHA, repeat=n):
                v = ALPHA[head[0]] + ALPHA[head[1]] + "".join(t)
                s.add(SC, v)
                s.add(OB, [v, {v: v}])
        s.check(st)

    out.append(Space("strings", "every string of 2 to %d characters over %d special characters" % (L, na), na * na, strings))

    TRICKY = ["\\x41", "\\u0041", "\\U00000041", "\\N{DASH}", "\\101", "\\", "%s%d%%", "{0}{x}", "${a}", "\'\'\'", '\"\"\"', "b'x'", "u'x'", "f'{x}'", "None", "nan", "1e5", "0x10", "[1]", "{}", "(", "#", "a" * 70000, "\\" * 999, "\x00" * 50, "'" * 33, " lead", "trail ", "\r\n", "é" * 5000]

    def tricky(i, st):
        a, b = digits(i, [len(TRICKY), len(TRICKY)])
        s = Store()
        for v in {TRICKY[a], TRICKY[a] + TRICKY[b], TRICKY[b] + "\\" + TRICKY[a], TRICKY[a] * 2 + "'" + TRICKY[b]}:
            s.add(SC, v)
            s.add(OB, v)
            s.add(OB, [v, {v: [v]}])
        s.check(st)

    out.append(Space("escapes", "every ordered pair of %d strings that look like escapes, formats, literals or are very long, concatenated in 4 ways" % len(TRICKY), len(TRICKY) ** 2, tricky))

    def halves(i, st):
        s = Store()
        for b in range(i * 256, (i + 1) * 256):
            f = struct.unpack("<e", struct.pack("<H", b))[0]
            for v in (f, f * 1e290, f * 1e-300, f / 3):
                s.add(SC, v)
                s.add(OB, v)
        s.check(st)

    out.append(Space("floats", "all 65536 half-precision values and three scalings of each (huge, subnormal, inexact)", 256, halves))

    def grid(i, st):
        s = Store()
        for man in (0, 1, (1 << 52) - 1, 0x5555555555555, 1 << 51):
            for sg in (0, 1):
                v = struct.unpack("<d", struct.pack("<Q", sg << 63 | i << 52 | man))[0]
                s.add(SC, v)
                s.add(OB, [v])
        for k in range(0, 8):
            for sg in (1, -1):
                s.add(SC, sg * ((1 << (i % 256)) + k - 4))
                s.add(OB, sg * ((1 << (i % 256)) + k - 4))
        s.check(st)

    out.append(Space("exponents", "every binary exponent of a double x 5 mantissas x sign; integers around every power of two up to 2^255", 2048, grid))
    ns = len(SCALARS)

    def containers(i, st):
        a = SCALARS[i]
        s = Store()
        s.add(SC, a)
        s.add(OB, a)
        s.add(OB, [a])
        s.add(OB, {"k'\"\\": a})
        for b in SCALARS:
            s.add(OB, [a, b])
            s.add(OB, {"x": a, "y": b})
            s.add(OB, {"": [a], "n": {"m": b}})
            s.add(OB, [[a, b], [], {}])
            if th:
                for c in SCALARS:
                    s.add(OB, [a, b, c])
                    s.add(OB, {"z": a, "y": b, "x": c})
        s.check(st)

    out.append(Space("containers", "every scalar, pair%s of %d scalars in lists, string-keyed dictionaries and nestings" % (" and triple" if th else "", ns), ns, containers))
    rad = [len(DTYPES), len(SHAPES), 12, 5]

    def numpys(i, st):
        dt, sh, off, lay = digits(i, rad)
        v = arrays(DTYPES[dt])
        shape = SHAPES[sh]
        n = int(np.prod(shape)) if shape else 1
        a = np.array([v[(off + k) % len(v)] for k in range(n)], dtype=DTYPES[dt]).reshape(shape)
        if lay == 1:
            a = np.asfortranarray(a)
        elif lay == 2 and a.ndim:
            a = a[::-1]
        elif lay == 3:
            a = a.T
        elif lay == 4 and a.ndim:
            a = np.repeat(a, 2, axis=0)[::2]
        s = Store()
        s.add(NP, a)
        s.check(st, same_array)

    out.append(Space("arrays", "%d dtypes x %d shapes (0-d, empty, up to 4-d) x 12 value rotations (extremes, subnormals, NaN, infinities) x 5 memory layouts" % (len(DTYPES), len(SHAPES)), prod(rad), numpys))

    LONG = [999, 1000, 1001, 1025, 3000, 20000]
    radl = [len(LONG), len(DTYPES), 3]

    def long_arrays(i, st):
        k, dt, sh = digits(i, radl)
        v = arrays(DTYPES[dt])
        n = LONG[k]
        a = np.array([v[(q * q + q // 7) % len(v)] for q in range(n)], dtype=DTYPES[dt])
        if sh == 1:
            a = a[: n // 20 * 20].reshape(20, -1)
        elif sh == 2:
            a = a[: n // 9 * 9].reshape(-1, 3, 3)
        s = Store()
        s.add(NP, a)
        s.check(st, same_array)

    out.append(Space("long-arrays", "arrays of %s elements, in one to three dimensions, of %d dtypes" % (LONG, len(DTYPES)), prod(radl), long_arrays))

    def long_objects(i, st):
        n = [50, 101, 999, 1001, 5000][i % 5]
        s = Store()
        a = [SCALARS[(q * q + i) % len(SCALARS)] for q in range(n)]
        if i < 5:
            s.add(OB, a)
        elif i < 10:
            s.add(OB, {"k%d'" % ((q * 7919) % 100003): v for q, v in enumerate(a)})
        elif i < 15:
            v = a[0]
            for q in range([5, 10, 20, 40, 60][i % 5]):
                v = [v, a[q]] if q % 2 else {"d": v, "e": a[q]}
            s.add(OB, v)
        else:
            s.add(OB, "".join(chr(32 + (q * 31 + i) % 500) for q in range(n)))
            s.add(SC, "".join(chr(32 + (q * 31 + i) % 500) for q in range(n)))
            s.add(SC, (1 << n % 4000) + i)
        s.check(st)

    out.append(Space("long-objects", "lists and dictionaries of 50-5000 scalars, nestings of 5-60 levels, long strings and integers of up to 1200 digits", 20, long_objects))

    def narrow(i, st):
        b = np.arange(i * 4096, (i + 1) * 4096, dtype="uint16")
        s = Store()
        for dt in ("float16", "int16", "uint16"):
            a = b.view(dt)
            if dt == "float16":
                a = a[~np.isnan(a)]
            s.add(NP, a.copy())
        s.add(NP, b.astype("uint8").reshape(64, 64))
        s.check(st, same_array)

    out.append(Space("narrow-dtypes", "all values of float16, int16, uint16 and uint8", 16, narrow))
    return out
