"""model of networks and their archives"""
import numpy as np, io, os, zipfile
from pyprop import st, check, hx, unhx, Violation
from arrays import header_of

ACTS = ["linear", "relu", "sigmoid", "tanh", "softsign", "hard_sigmoid", "softplus", "exponential", "softmax"]
size = st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 40), st.sampled_from([1, 15, 16, 17, 31, 33, 64, 100, 257]))


LONG = "an_activation_function_with_a_rather_long_name_which_goes_on_and_on_and_on_until_nobody_wants_to_read_it_any_more_but_the_linker_does_not_mind_and_neither_should_the_library_which_looks_it_up"
PATHS = ["./worker.a.so", "./worker.d/" + "x" * 30 + ".so", "./worker.d/" + "y" * 100 + ".so", "./worker.d/" + ("z" * 120 + "/") * 7 + "b.so", "./worker.d/\u00e6 100%s.so"]


def provide(ctx):
    """the libraries of custom activation functions"""
    if not os.path.exists(ctx.path("worker.a.so")):
        lib = open(os.environ["CUSTOM"], "rb").read()
        for p in PATHS[1:] + PATHS[:1]:
            os.makedirs(os.path.dirname(ctx.path(p)), exist_ok=True)
            ctx.write(p, lib)


customs = st.tuples(st.sampled_from(["swish", "relu", "f", "g", LONG]), st.sampled_from(PATHS)).map(lambda t: t[0] + "@" + t[1])


@st.composite
def nets(draw, maxl=6, custom=0):
    n = draw(st.one_of(st.integers(1, 3), st.integers(1, maxl)))
    if maxl > 5 and draw(st.integers(0, 29)) == 29:
        n = draw(st.integers(7, 60))
        sizes = [draw(st.integers(1, 5)) for _ in range(n + 1)]
    else:
        sizes = [draw(size) for _ in range(n + 1)]
    return {"sizes": sizes, "acts": [draw(customs if draw(st.integers(1, 100)) <= custom else st.sampled_from(ACTS)) for _ in range(n)], "seed": draw(st.integers(0, 10 ** 6)), "style": draw(st.integers(0, 4))}


def logint(lo, hi):
    """lo to hi, uniform in the logarithm or near a power of two"""
    from math import log2
    a, b = log2(lo), log2(hi)
    return st.one_of(st.floats(a, b).map(lambda x: int(2 ** x)), st.tuples(st.integers(int(a), int(b)), st.integers(-1, 1)).map(lambda t: 2 ** t[0] + t[1])).map(lambda x: min(max(x, lo), hi))


@st.composite
def hugenets(draw):
    """hundreds of layers, or layers of thousands of nodes or millions of weights"""
    kind = draw(st.sampled_from(["deep", "wide", "fat"]))
    if kind == "deep":
        n = draw(logint(60, 1500))
        s = draw(st.integers(0, 10 ** 6))
        r = np.random.RandomState(s)
        sizes = [int(x) for x in r.randint(1, 5, n + 1)]
        pool = draw(st.lists(st.one_of(st.sampled_from(ACTS), customs), min_size=1, max_size=4))
        acts = [pool[i] for i in r.randint(0, len(pool), n)]
    else:
        n = draw(st.integers(1, 3))
        at = draw(st.integers(0, n - 1))
        total = draw(logint(100000, 6000000 if kind == "fat" else 300000))
        a = draw(logint(50, 3000) if kind == "fat" else logint(3000, 150000))
        sizes = [draw(st.integers(1, 3)) for _ in range(n + 1)]
        sizes[at] = a
        sizes[at + 1] = max(1, total // a)
        if kind == "wide" and draw(st.booleans()):
            sizes[at], sizes[at + 1] = sizes[at + 1], sizes[at]
        acts = [draw(st.one_of(st.sampled_from(ACTS), customs) if draw(st.integers(0, 4)) == 0 else st.sampled_from(ACTS)) for _ in range(n)]
    return {"sizes": sizes, "acts": acts, "seed": draw(st.integers(0, 10 ** 6)), "style": draw(st.integers(0, 4))}


class NN:
    def __init__(self, d):
        self.sizes, self.acts = d["sizes"], d["acts"]
        self.L = len(self.acts)
        r = np.random.RandomState(d["seed"])
        self.w, self.b = [], []
        for i in range(self.L):
            for which, n in (("b", self.sizes[i + 1]), ("w", self.sizes[i] * self.sizes[i + 1])):
                st_ = d["style"]
                if st_ == 0:
                    a = r.normal(size=n) / max(1, self.sizes[i]) ** 0.5
                elif st_ == 1:
                    a = r.randint(-2, 3, n)
                elif st_ == 2:
                    a = r.randint(0, 256, n * 4).astype(np.uint8).view(np.float32)        # any bits
                elif st_ == 3:
                    a = r.choice([0.0, -0.0, 1e-45, -1e-40, 3.4e38, np.inf, -np.inf, np.nan, 1.0], n)
                else:
                    a = np.arange(n) + 1000 * i
                with np.errstate(all="ignore"):
                    a = np.asarray(a).astype("<f4")
                if which == "b":
                    self.b.append(a)
                else:
                    self.w.append(a.reshape(self.sizes[i], self.sizes[i + 1]))

    def flat(self):
        return b"".join(b.tobytes() + w.tobytes() for b, w in zip(self.b, self.w))

    def actarray(self, extra=0):
        return np.array([a.encode() for a in self.acts], dtype="S%d" % (max(len(a.encode()) for a in self.acts) + extra))

    def entries(self):
        r = []
        for w, b in zip(self.w, self.b):
            r += [w, b]
        return r

    def create(self, ctx, id):
        ctx.write("params", self.flat())
        a = ctx.w.cmd("ncreate", id, self.L, *self.sizes, *[hx(x) for x in self.acts])
        check(a[0] == "ok", "the network cannot be created")
        ctx.w.cmd("nset", id, hx("params"))

    def same(self, ctx, id, what):
        r = ctx.w.cmd("ndesc", id, hx("raw"))[1:]
        check(int(r[0]) == self.L, "%s: %s layers instead of %d", what, r[0], self.L)
        for l in range(self.L):
            i, o, a = r[1 + 3 * l:4 + 3 * l]
            check((int(i), int(o)) == (self.sizes[l], self.sizes[l + 1]), "%s: layer %d is %s x %s instead of %d x %d", what, l, i, o, self.sizes[l], self.sizes[l + 1])
            check(a != "null" and unhx(a) == self.acts[l].encode(), "%s: the activation of layer %d is %s instead of %s", what, l, a if a == "null" else unhx(a), self.acts[l])
        check(ctx.read("raw") == self.flat(), "%s: the parameters differ", what)

    def predict(self, ctx, id, seed):
        r = np.random.RandomState(seed)
        ctx.write("x", r.normal(size=self.sizes[0]).astype("<f4").tobytes())
        ctx.w.cmd("npredict", id, hx("x"), hx("y"))
        return np.frombuffer(ctx.read("y"), "<f4")


def npy(a, version=(1, 0)):
    b = io.BytesIO()
    np.lib.format.write_array(b, a, version=version, allow_pickle=False)
    return b.getvalue()


def archive(named, method=zipfile.ZIP_STORED, level=None):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", method, compresslevel=level) as z:
        for n, d in named:
            z.writestr(n, d)
    return b.getvalue()


def read_model(data, what):
    """what an archive says, judged by numpy alone"""
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        check(z.testzip() is None, "%s: the archive is damaged", what)
        arrs = []
        for i in z.infolist():
            d = z.read(i)
            arrs.append((header_of(d)[1], np.lib.format.read_array(io.BytesIO(d), allow_pickle=False)))
        return arrs
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s: not a valid archive of arrays: %s" % (what, e))


def verify_file(data, nn, what):
    arrs = read_model(data, what)
    check(len(arrs) == 2 * nn.L + 1, "%s: %d arrays instead of %d", what, len(arrs), 2 * nn.L + 1)
    acts = [a for a in arrs if a[1].dtype.kind == "S"]
    nums = [a for a in arrs if a[1].dtype.kind != "S"]
    check(len(acts) == 1, "%s: %d arrays of strings", what, len(acts))
    for k, (want, (h, got)) in enumerate(zip(nn.entries(), nums)):
        check(got.dtype == np.dtype("<f4"), "%s: array %d has type %s", what, k, got.dtype)
        check(got.shape == want.shape, "%s: array %d has shape %s instead of %s", what, k, got.shape, want.shape)
        check(not h[1], "%s: array %d is column-major", what, k)
        check(got.tobytes() == want.tobytes(), "%s: array %d has other contents", what, k)
    check(acts[0][1].shape == (nn.L,), "%s: the activation names have shape %s", what, acts[0][1].shape)
    check([bytes(x) for x in acts[0][1]] == [x.encode() for x in nn.acts], "%s: the activation names are %s instead of %s", what, list(acts[0][1]), nn.acts)
