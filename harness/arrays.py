"""model of arrays: generation, comparison with what the library and numpy hold"""
import numpy as np, io, zipfile
from pyprop import st, check, hx, unhx, Violation

TYPES = ["f4", "f8", "i4", "u1", "i1", "i8", "u2", "i2", "u4", "u8", "f2", "f16", "c8", "c16", "c32", "b1", "S1", "S3", "S16", "S100", "S1000", "S70000"]


def clip(shape, limit):
    out, n = [], 1
    for d in shape:
        if n * max(d, 1) > limit:
            d = 1 if limit < 300000 else limit // n
        n *= max(d, 1)
        out.append(d)
    return out


dim = st.one_of(st.integers(0, 4), st.integers(1, 40), st.sampled_from([0, 1, 1, 5, 64, 100, 1000, 4096, 65536]))
shapes = st.one_of(st.lists(dim, min_size=1, max_size=3), st.lists(dim, max_size=8))

bigdim = st.one_of(st.integers(1, 10), st.floats(2, 24).map(lambda x: int(2 ** x)), st.sampled_from([255, 256, 65535, 65536, 65537, 2 ** 20, 2 ** 24 + 1]))
bigshapes = st.one_of(st.lists(bigdim, min_size=1, max_size=3), st.tuples(st.integers(1, 5), bigdim, bigdim).map(list))


@st.composite
def arrays(draw, types=None, limit=None, endians=("", "<", ">")):
    t = draw(st.sampled_from(types or TYPES))
    lim = (draw(limit) if limit is not None and not isinstance(limit, int) else limit) or draw(st.sampled_from([40, 2000, 2000, 300000]))
    e = draw(st.sampled_from(endians))
    if draw(st.integers(0, 11)) == 11:       # nothing in it, but large dimensions
        room = 2 ** 62 // int(t[1:])
        shape = []
        for _ in range(draw(st.integers(1, 7))):
            d = max(1, min(draw(st.one_of(st.integers(1, 10), st.integers(1, 2 ** 60), st.sampled_from([2 ** 31, 2 ** 32, 10 ** 9, 99]))), room))
            room //= d
            shape.append(d)
        shape.insert(draw(st.integers(0, len(shape))), 0)
        return {"type": t, "end": e, "shape": shape, "order": draw(st.sampled_from("CF")), "seed": 0}
    if lim >= 4096 and draw(st.integers(0, 5)) == 5 or lim < 4096 and draw(st.integers(0, 14)) == 14:       # the data end near a page of the file
        n = max(1, (4096 * draw(st.integers(1, 3)) + draw(st.integers(-20, 20)) - draw(st.sampled_from([128, 128, 64, 192, 0, 118]))) // int(t[1:]))
        return {"type": t, "end": e, "shape": [n], "order": "C", "seed": draw(st.integers(0, 10 ** 6))}
    return {"type": t, "end": e, "shape": clip(draw(bigshapes if lim > 300000 else shapes), max(1, lim // int(t[1:]))), "order": draw(st.sampled_from("CF")), "seed": draw(st.integers(0, 10 ** 6))}


class M:
    """one array: what it has to be"""
    def __init__(self, d):
        self.t, self.size, self.shape, self.fortran = d["type"][0], int(d["type"][1:]), tuple(d["shape"]), d["order"] == "F"
        self.given = d["end"]                       # "" leaves it to the library
        self.end = "|" if self.size == 1 or self.t == "S" else (d["end"] or "<")
        n = self.size
        for x in self.shape:
            n *= x          # an empty array has no bytes
        r = np.random.RandomState(d["seed"])
        style = d["seed"] % 4
        if self.t == "b":
            raw = r.randint(0, 2, n).astype(np.uint8).tobytes()
        elif self.t == "S":
            raw = np.where(r.randint(0, 5, n) == 0, 0, r.randint(32, 127, n)).astype(np.uint8).tobytes()
        elif style == 0:
            raw = r.randint(0, 256, n).astype(np.uint8).tobytes()
        elif style == 1:
            raw = (r.randint(0, 256, 4).astype(np.uint8).tobytes() * (n // 4 + 1))[:n]        # compressible
        elif style == 2:
            raw = bytes(n)
        else:
            raw = b"\r\n\x00\x1a"[:max(1, n)] * (n // 4 + 1)
            raw = raw[:n]
        self.raw = raw

    def dtype(self):
        return np.dtype(("" if self.end == "|" else self.end) + self.t + str(self.size))

    def numpy(self):
        a = np.frombuffer(self.raw, dtype=self.dtype())
        return a.reshape(self.shape, order="F" if self.fortran else "C")

    def from_numpy(self):
        """the same after numpy has written it"""
        a = self.numpy()
        self.fortran = bool(a.flags.f_contiguous and not a.flags.c_contiguous)
        return a

    def same_numpy(self, a, what):
        check(a.dtype == self.dtype(), "%s: the element type is %s instead of %s", what, a.dtype.str, self.dtype().str)
        check(tuple(a.shape) == self.shape, "%s: the shape is %s instead of %s", what, a.shape, self.shape)
        check(a.tobytes("F" if self.fortran else "C") == self.raw, "%s: the contents differ", what)

    def same_desc(self, words, raw, what, made_here=False):
        nd = int(words[0])
        shape = tuple(int(x) for x in words[1:1 + nd])
        t, e, size, f = (int(x) for x in words[1 + nd:5 + nd])
        check(nd == len(self.shape) and shape == self.shape, "%s: the shape is %s instead of %s", what, shape, self.shape)
        check(chr(t) == self.t and size == self.size, "%s: the type is %s%d instead of %s%d", what, chr(t), size, self.t, self.size)
        check(chr(e) == self.end or (made_here and self.given == "" and e == 0), "%s: the byte order is %r instead of %r", what, chr(e), self.end)
        check(f == self.fortran, "%s: fortran_order is %s instead of %s", what, bool(f), self.fortran)
        check(raw == self.raw, "%s: the contents differ", what)


def header_of(data):
    """what numpy's own reader says about a file's header"""
    f = io.BytesIO(data)
    v = np.lib.format.read_magic(f)
    h = np.lib.format.read_array_header_1_0(f) if v == (1, 0) else np.lib.format.read_array_header_2_0(f)
    return v, h, f.tell()


def numpy_reads(data, m, what):
    try:
        v, (shape, fortran, dt), off = header_of(data)
        a = np.lib.format.read_array(io.BytesIO(data), allow_pickle=False)
    except Exception as e:
        raise Violation("%s: numpy cannot read the file: %s" % (what, e))
    m.same_numpy(a, what)
    check(fortran == m.fortran, "%s: numpy sees fortran_order %s", what, fortran)
    check(off % 64 == 0, "%s: the data start at %d, which is no multiple of 64", what, off)
    check(len(data) == off + len(m.raw), "%s: the file has %d bytes instead of %d", what, len(data), off + len(m.raw))


def unzip(data, what):
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        bad = z.testzip()
        check(bad is None, "%s: entry %s is damaged", what, bad)
        return [(i, z.read(i)) for i in z.infolist()]
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s: not a valid archive: %s" % (what, e))
