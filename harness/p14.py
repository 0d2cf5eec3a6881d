# P14 - arrays survive saving, loading and mapping
import sys, os, io, re, zlib, zipfile
import numpy as np
from pyprop import *
from arrays import *

METHODS = [(0, 0), (8, 0), (8, 1), (8, 9), (-1, 0), (12, 0), (14, 0)]
WANT = {0: (0,), 8: (8,), -1: (0, 8), 12: (12,), 14: (14,)}     # -1 is libzip's default: whichever is smaller


def verify(ctx, id, m, what):
    w = ctx.w.cmd("adesc", id, hx("raw"))
    m.same_desc(w[1:], ctx.read("raw"), what)


def new(ctx, id, m):
    ctx.write("data", m.raw)
    ctx.w.cmd("anew", id, ord(m.t), m.size, ord(m.given) if m.given else 0, int(m.fortran), len(m.shape), *m.shape, hx("data"))
    os.unlink(ctx.path("data"))


def chain(ctx, case):
    w = ctx.w
    ms = [M(d) for d in case["arrays"]]
    ids = []

    def go():
        ms = [M(d) for d in case["arrays"]]
        for i, m in enumerate(ms):
            if m.end == "|":
                m.given = ""
            new(ctx, "a%d" % i, m)
        have = ["a%d" % i for i in range(len(ms))]
        mapped = 0
        for k, op in enumerate(case["ops"]):
            kind = op[0]
            nxt = ["b%d_%d" % (k, i) for i in range(len(ms))]
            what = "step %d (%s)" % (k, kind)
            if kind in ("file", "map", "np-file", "np-map"):
                for i, m in enumerate(ms):
                    f = "f%d_%d.npy" % (k, i)
                    if kind.startswith("np"):
                        a = m.from_numpy()
                        ctx.label("written by numpy")
                        with open(ctx.path(f), "wb") as fp:
                            np.save(fp, a) if op[1] % 2 else np.lib.format.write_array(fp, a, version=(1, 0))
                    else:
                        check(w.cmd("asave", have[i], hx(f))[0] == "ok", "cannot save")
                        numpy_reads(ctx.read(f), m, what)
                    before = ctx.read(f)
                    r = w.cmd("ammap" if kind.endswith("map") else "aload", nxt[i], hx(f))
                    check(r[0] == "ok", "%s: %s%d %s is refused", what, m.t, m.size, m.shape)
                    verify(ctx, nxt[i], m, what)
                    check(ctx.read(f) == before, "%s: loading changes the file", what)
                    w.cmd("afree", have[i])
                    verify(ctx, nxt[i], m, what + ", after freeing the source")
                    if op[1] // 2 % 4 == 0:
                        os.unlink(ctx.path(f))      # a mapping survives that
                have = nxt
            else:
                f = "z%d.npz" % k
                names = ["n%d.npy" % i for i in range(len(ms))]
                if kind == "np-zip":
                    (np.savez_compressed if op[1] % 2 else np.savez)(ctx.path(f), **{"n%d" % i: m.from_numpy() for i, m in enumerate(ms)})
                    for h in have:
                        w.cmd("afree", h)
                    ctx.label("written by numpy")
                else:
                    for i in range(len(ms)):
                        w.cmd("lappend", "l", have[i], "-", hx(names[i]))
                    meth, fl = METHODS[op[1] % len(METHODS)]
                    if w.cmd("zipmethod", meth)[1] == "0":
                        ctx.label("compression %d is not supported by libzip" % meth)
                        meth, fl = 8, 0
                    r = w.cmd("lsave", "l", hx(f)) if op[1] == 0 else w.cmd("lsavec", "l", hx(f), meth, fl)
                    check(int(r[1]) == len(ms), "%s: %s arrays written instead of %d", what, r[1], len(ms))
                    es = unzip(ctx.read(f), what)
                    check([e.filename for e, _ in es] == names, "%s: the names are %s", what, [e.filename for e, _ in es])
                    for (e, data), m in zip(es, ms):
                        check(e.compress_type in WANT[meth], "%s: compression %d was requested, %s has %d", what, meth, e.filename, e.compress_type)
                        numpy_reads(data, m, what)
                    try:
                        z = np.load(ctx.path(f), allow_pickle=False)
                        for i, m in enumerate(ms):
                            m.same_numpy(z["n%d" % i], what + " np.load")
                        z.close()
                    except (ValueError, KeyError, OSError) as e:
                        raise Violation("%s: numpy cannot load the archive: %s" % (what, e))
                    ctx.label("compression %d" % meth)
                    w.cmd("lfree", "l")
                check(w.cmd("lload", "l", hx(f))[0] == "ok", "%s: the archive is refused", what)
                check(int(w.cmd("lcount", "l")[1]) == len(ms), "%s: %s arrays loaded instead of %d", what, w.cmd("lcount", "l")[1], len(ms))
                for i, m in enumerate(ms):
                    r = w.cmd("litem", "l", i, hx("raw"))
                    check(unhx(r[1]).decode() == names[i], "%s: array %d is called %r", what, i, unhx(r[1]))
                    m.same_desc(r[2:], ctx.read("raw"), what)
                    w.cmd("ldetach", "l", nxt[i], i)
                w.cmd("lfree", "l")
                have = nxt
                for i, m in enumerate(ms):
                    verify(ctx, have[i], m, what)
        for h, m in zip(have, ms):
            t = unhx(w.cmd("adump", h)[1]).decode("utf-8", "replace")
            n = [int(x) for x in re.findall(r"\d+", t)]
            check(n == [len(m.shape), *m.shape, m.size] and "'%s'" % m.t in t and ("True" if m.fortran else "False") in t, "%s%d %s is dumped as %r", m.t, m.size, m.shape, t)
            w.cmd("afree", h)
        check(int(w.cmd("maps", hx(".npy"))[1]) == 0, "a file stays mapped after the array was freed")
        for f in os.listdir(ctx.dir):
            if not f.startswith("worker."):
                os.unlink(ctx.path(f))
    leakcheck(ctx, go)
    ctx.label("bytes 10^%d" % (len(str(max(len(m.raw) for m in ms))) - 1))
    ctx.label("arrays %s" % ("1-4" if len(ms) < 5 else "5-255" if len(ms) < 256 else "256+"))
    ctx.label("ndim %d" % max(len(m.shape) for m in ms))
    for m in ms:
        ctx.label("type %s" % m.t)
        if 0 in m.shape:
            ctx.label("empty")
        if m.fortran and len(m.shape) > 1:
            ctx.label("column-major")
    if any(len(m.raw) > 1 for m in ms):
        ctx.nontrivial()


ops = st.lists(st.tuples(st.sampled_from(["file", "map", "zip", "np-file", "np-map", "np-zip"]), st.integers(0, 13)), min_size=1, max_size=4)
cases = st.fixed_dictionaries({"arrays": st.lists(arrays(), min_size=1, max_size=4), "ops": ops})
tiny = arrays(limit=8)
big = st.fixed_dictionaries({"arrays": st.lists(arrays(limit=st.floats(18, 25.5).map(lambda x: int(2 ** x))), min_size=1, max_size=2), "ops": st.lists(st.tuples(st.sampled_from(["file", "map", "zip", "np-file", "np-map", "np-zip"]), st.integers(0, 13)), min_size=1, max_size=2)})


@st.composite
def crowds(draw):
    few = draw(st.lists(tiny, min_size=1, max_size=6))
    n = draw(st.one_of(st.integers(5, 300), st.floats(5, 11).map(lambda x: int(2 ** x)), st.sampled_from([255, 256, 257, 1000, 1001])))
    return {"arrays": [few[i % len(few)] for i in range(n)], "ops": draw(st.lists(st.tuples(st.sampled_from(["zip", "np-zip", "zip", "np-zip", "map"] if n < 400 else ["zip", "np-zip"]), st.integers(0, 13)), min_size=1, max_size=2))}


KINDS = ["f2", "f4", "f8", "f16", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "c8", "c16", "c32", "b1"]


def builder(ctx, case):
    """what the macros NPY_ARRAY_BUILDER, SHAPE and NPY_DTYPE_... describe, saved from the caller's memory"""
    ms = [M(d) for d in case["arrays"]]

    def go():
        args = []
        for i, (d, m) in enumerate(zip(case["arrays"], ms)):
            ctx.write("d%d" % i, m.raw)
            args += [KINDS.index(d["type"]), int(m.fortran), len(m.shape), *m.shape, hx("d%d" % i), hx("x%d.npy" % i)]
        r = ctx.w.cmd("abuild", case["mode"], len(ms), hx("out"), *args)
        if case["mode"] == 0:
            for i, m in enumerate(ms):
                numpy_reads(ctx.read("out%d" % i), m, "array %d (%s)" % (i, case["arrays"][i]["type"]))
        else:
            check(int(r[1]) == len(ms), "saving a list of %d gives %s", len(ms), r[1])
            es = unzip(ctx.read("out"), "the archive")
            want = [("arr_%d.npy" if case["mode"] == 1 else "x%d.npy") % i for i in range(len(ms))]
            check([e.filename for e, _ in es] == want, "the names are %s", [e.filename for e, _ in es])
            for (e, data), m in zip(es, ms):
                numpy_reads(data, m, e.filename)
        for f in os.listdir(ctx.dir):
            if not f.startswith("worker."):
                os.unlink(ctx.path(f))
    leakcheck(ctx, go)
    for d in case["arrays"]:
        ctx.label("type %s" % d["type"])
        ctx.label("ndim %d" % len(d["shape"]))
    if any(len(m.raw) > 1 for m in ms):
        ctx.nontrivial()


built = st.fixed_dictionaries({"arrays": st.lists(arrays(types=KINDS, limit=2000, endians=("",)).filter(lambda d: d["shape"]), min_size=1, max_size=4), "mode": st.integers(0, 3)})

# ---- arrays of gigabytes: nearly all zero, kept in files with holes ----
SEG = 1 << 24
_z = ctypes.CDLL("libz.so.1")
_z.crc32_combine64.restype = ctypes.c_ulong
_z.crc32_combine64.argtypes = [ctypes.c_ulong, ctypes.c_ulong, ctypes.c_long]
_zero = {}


def zeros(k):
    """crc and deflated form of k zero bytes"""
    if k not in _zero:
        c = zlib.compressobj(6, zlib.DEFLATED, -15)
        b = bytes(k)
        _zero[k] = (zlib.crc32(b), c.compress(b) + c.flush(zlib.Z_FULL_FLUSH))
    return _zero[k]


class Big:
    def __init__(self, case):
        self.t, self.size = case["type"][0], int(case["type"][1:])
        n = max(1, case["bytes"] // self.size)
        self.shape = (n,)
        for d in case["split"]:
            if d <= self.shape[-1]:
                self.shape = self.shape[:-1] + (d, max(1, self.shape[-1] // d))
        self.fortran = case["order"] == "F" and len(self.shape) > 1
        self.n = self.size
        for d in self.shape:
            self.n *= d
        pos = [0, self.n - 1] + [p for p in (2 ** 30, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32) if p < self.n] + [int(f * (self.n - 1)) for f in case["at"]]
        self.marks = {p: 1 + (p * 7 + i) % 255 if self.t != "b" else 1 for i, p in enumerate(pos)}
        h = io.BytesIO()
        np.lib.format.write_array_header_1_0(h, {"descr": ("|" if self.size == 1 or self.t == "S" else "<") + self.t + str(self.size), "fortran_order": self.fortran, "shape": self.shape})
        self.head = h.getvalue()

    def args(self):
        return [len(self.marks)] + [x for p in sorted(self.marks) for x in (p, self.marks[p])]

    def sparse(self, path, at=0):
        """writes the .npy file at an offset of a file, with holes"""
        with open(path, "r+b" if os.path.exists(path) else "wb") as f:
            f.seek(at)
            f.write(self.head)
            f.truncate(at + len(self.head) + self.n)
            for p, v in self.marks.items():
                f.seek(at + len(self.head) + p)
                f.write(bytes([v]))

    def pieces(self):
        """the bytes of the .npy file: pairs of a length and the bytes, None being all zero"""
        yield len(self.head), self.head
        marks, q = sorted(self.marks), 0
        while q < self.n:
            k = min(SEG, self.n - q)
            ms = [p for p in marks if q <= p < q + k]
            if not ms:
                yield k, None
            else:
                b = bytearray(k)
                for p in ms:
                    b[p - q] = self.marks[p]
                yield k, bytes(b)
            q += k

    def archive(self, path, names, deflate):
        """an archive of this array under each of the names"""
        u16, u32, u64 = (lambda x, n=n: x.to_bytes(n, "little") for n in (2, 4, 8))
        crc, total, packed = 0, len(self.head) + self.n, []
        for k, b in self.pieces():
            if b is None:
                c, d = zeros(k)
            else:
                c = zlib.crc32(b)
                if deflate:
                    co = zlib.compressobj(6, zlib.DEFLATED, -15)
                    d = co.compress(b) + co.flush(zlib.Z_FULL_FLUSH)
            crc = _z.crc32_combine64(crc, c, k)
            if deflate:
                packed.append(d)
        end = b"\x03\x00"        # an empty last block
        csize = sum(map(len, packed)) + len(end) if deflate else total
        central = b""
        for name in names:
            name = name.encode()
            at = os.path.getsize(path) if os.path.exists(path) else 0
            fixed = u16(45) + u16(0) + u16(8 if deflate else 0) + u16(0) + u16(0x21) + u32(crc) + b"\xff" * 8 + u16(len(name))
            with open(path, "ab") as f:
                f.write(b"PK\3\4" + fixed + u16(20) + name + u16(1) + u16(16) + u64(total) + u64(csize))
                if deflate:
                    for d in packed:
                        f.write(d)
                    f.write(end)
            if not deflate:
                self.sparse(path, os.path.getsize(path))
            central += b"PK\1\2" + u16(45) + fixed + u16(28) + u16(0) * 3 + u32(0) + b"\xff" * 4 + name + u16(1) + u16(24) + u64(total) + u64(csize) + u64(at)
        at = os.path.getsize(path)
        with open(path, "ab") as f:
            f.write(central)
            f.write(b"PK\6\6" + u64(44) + u16(45) + u16(45) + u32(0) * 2 + u64(len(names)) * 2 + u64(len(central)) + u64(at))
            f.write(b"PK\6\7" + u32(0) + u64(at + len(central)) + u32(1))
            f.write(b"PK\5\6" + u16(0) * 2 + b"\xff" * 12 + u16(0))

    def is_file(self, f, what):
        """whether a stream is the .npy file of this array; its header need not be the one numpy writes"""
        try:
            v = np.lib.format.read_magic(f)
            shape, fortran, dt = (np.lib.format.read_array_header_1_0 if v == (1, 0) else np.lib.format.read_array_header_2_0)(f)
        except Exception as e:
            raise Violation("%s: numpy cannot read the header: %s" % (what, e))
        check(shape == self.shape and fortran == self.fortran and dt.itemsize == self.size, "%s: numpy sees %s %s %s", what, dt, shape, fortran)
        first = True
        q, zero = 0, bytes(SEG)
        for k, b in self.pieces():
            if first:
                first = False
                continue
            try:
                got = f.read(k)
            except Exception as e:
                raise Violation("%s: cannot be read: %s" % (what, e))
            check(got == (zero[:k] if b is None else b), "%s: the contents between %d and %d are wrong", what, q, q + k)
            q += k
        check(not f.read(1), "%s: there is more than the array", what)


def free_memory():
    return int(re.search(r"MemAvailable: *(\d+)", open("/proc/meminfo").read()).group(1)) >> 20


def enormous(ctx, case):
    a = Big(case)
    w = ctx.w
    s = os.statvfs(ctx.dir)
    if free_memory() < 14 or s.f_bavail * s.f_frsize < 10 << 30:
        ctx.label("enormous: too little memory")
        return
    old, w.timeout = w.timeout, 240

    def verify(id, full, what):
        r = w.cmd("abig", id, int(full), *a.args())
        nd = int(r[1])
        check(tuple(int(x) for x in r[2:2 + nd]) == a.shape, "%s: the shape is %s instead of %s", what, r[2:2 + nd], a.shape)
        check([int(x) for x in r[2 + nd:5 + nd]] == [ord(a.t), a.size, int(a.fortran)], "%s: the type, size and order are %s", what, r[2 + nd:5 + nd])
        check(r[5 + nd:] == ["fine"], "%s: the contents differ: %s", what, " ".join(r[5 + nd:]))

    def go():
        k, what = case["op"], "%s of %d bytes" % (case["op"], a.n)
        if k in ("deflated", "stored"):
            names = ["x.npy", "y.npy"] if a.n < 3 << 30 else ["x.npy"]
            a.archive(ctx.path("f"), names, k == "deflated")
            check(w.cmd("lload", "l", hx("f"))[0] == "ok", "%s: the archive is refused", what)
            os.unlink(ctx.path("f"))
            check(int(w.cmd("lcount", "l")[1]) == len(names), "%s: not all arrays are loaded", what)
            for i in range(len(names)):
                w.cmd("ldetach", "l", "a%d" % i, i)
            w.cmd("lfree", "l")
            for i in range(len(names)):
                verify("a%d" % i, True, what)
            for i in range(1, len(names)):
                w.cmd("afree", "a%d" % i)
        else:
            a.sparse(ctx.path("f"))
            check(w.cmd("ammap" if k == "mapped" else "aload", "a0", hx("f"))[0] == "ok", "%s: the file is refused", what)
            verify("a0", k != "mapped", what)
            os.unlink(ctx.path("f"))
        if case["then"] == "file":
            w.cmd("asave", "a0", hx("g"))
            with open(ctx.path("g"), "rb") as f:
                a.is_file(f, what + ", saved")
            w.cmd("afree", "a0")
        elif case["then"] == "none":
            w.cmd("afree", "a0")
        else:
            w.cmd("lappend", "m", "a0", "-", hx("x.npy"))
            r = w.cmd("lsave", "m", hx("g")) if case["then"] == "zip" else w.cmd("lsavec", "m", hx("g"), 8, 1)
            check(int(r[1]) == 1, "%s: saving an archive of it gives %s", what, r[1])
            w.cmd("lfree", "m")
            try:
                z = zipfile.ZipFile(ctx.path("g"))
                f = z.open("x.npy")
            except Exception as e:
                raise Violation("%s: the archive saved is not valid: %s" % (what, e))
            a.is_file(f, what + ", saved in an archive")
            f.close(); z.close()
        if os.path.exists(ctx.path("g")):
            os.unlink(ctx.path("g"))
    leakcheck(ctx, go)
    w.timeout = old
    ctx.label("enormous: " + case["op"])
    ctx.label("enormous: then " + case["then"])
    ctx.label("enormous: %s" % ("above 4 GB" if a.n > 1 << 32 else "above 2 GB"))
    ctx.nontrivial()


sizes = st.one_of(st.integers(2 ** 32 + 16, 2 ** 32 + 2 ** 28), st.integers(2 ** 32 + 16, 2 ** 32 + 2 ** 28), st.integers(2 ** 31, 2 ** 31 + 2 ** 20), st.integers(2 ** 32 - 2 ** 20, 2 ** 32 + 2 ** 20), st.integers(2 ** 31, 2 ** 32))
huge = st.fixed_dictionaries({"op": st.sampled_from(["deflated", "mapped", "file", "stored"]), "then": st.sampled_from(["none", "none", "none", "file", "zip", "zipc"]), "type": st.sampled_from(["u1", "f4", "f8", "i2", "S3", "c16", "b1"]),
                              "bytes": sizes, "split": st.lists(st.sampled_from([2, 3, 65536, 70000, 1000]), max_size=2), "order": st.sampled_from("CF"), "at": st.lists(st.floats(0, 1), min_size=1, max_size=4)})

RULE = "a case is nontrivial if some array holds more than one byte"
if __name__ == "__main__":
    sys.exit(main("P14", [Arm("chain", cases, chain, 20000, 400000), Arm("big", big, chain, 64, 4000), Arm("crowd", crowds(), chain, 70, 4000), Arm("builder", built, builder, 4000, 80000),
                         Arm("enormous", huge, enormous, 4, 80, 1)], RULE))
