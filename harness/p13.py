# P13 - malformed or inconsistent model files
import sys, os, io, zipfile, re
import numpy as np
from pyprop import *
from models import *
from malformed import header, header_text, mutate, mutations, mutation, npys, npy_bytes
from arrays import header_of

small_nets = nets(maxl=4)


def use(ctx, id, what):
    """a network which was loaded can be used, saved, loaded again and freed"""
    r = ctx.w.cmd("ndesc", id, hx("raw"))[1:]
    params = ctx.read("raw")
    ctx.w.cmd("nuse", id, hx("copy.npz"))
    check(os.path.exists(ctx.path("copy.npz")), "%s: the network cannot be saved", what)
    ctx.w.cmd("nfree", id)
    check(ctx.w.cmd("nload", id, hx("copy.npz"))[0] == "ok", "%s: the network was loaded and saved, but the copy is refused", what)
    r2 = ctx.w.cmd("ndesc", id, hx("raw"))[1:]
    ctx.w.cmd("nfree", id)
    check(r == r2, "%s: the copy of the loaded network is another one: %s instead of %s", what, r2, r)
    check(params == params and len(params) == len(ctx.read("raw")), "%s: the copy has other parameters", what)
    os.unlink(ctx.path("copy.npz"))
    return r


def load(ctx, data, what, expect=None, nn=None):
    got = []

    def go():
        del got[:]
        ctx.write("m.npz", data)
        r = ctx.w.cmd("nload", "n", hx("m.npz"))
        got.append(r[0] == "ok")
        if r[0] == "ok":
            if nn:
                nn.same(ctx, "n", what)
            use(ctx, "n", what)
        check(ctx.read("m.npz") == data, "the file was changed")
    leakcheck(ctx, go)
    if expect is not None:
        check(got[0] == expect, "%s: the file is %s", what, "refused" if expect else "accepted")
    return got[0]


# ---- a sound model with one inconsistency ----
def spoil(nn, d):
    """entries [(array)] of the archive of nn after defect d, or None if d does not apply"""
    ent = list(nn.entries())
    act = nn.actarray()
    k, i, x = d["kind"], d["i"] % len(ent), d["x"]
    l = i // 2
    if k == "type":
        t = [">f4", "<f8", "<f2", "<i4", "<u4", "<c8", "|b1", "|u1", "<i8", "<f16", ">f8", "<c16"][x % 12]
        with np.errstate(all="ignore"):
            ent[i] = np.ones(ent[i].shape, dtype=t)
    elif k == "complex of the same bytes":
        if ent[i].ndim != 1 or ent[i].size % 2:
            return None
        ent[i] = ent[i].view("<c8")
    elif k == "strings as parameters":
        ent[i] = np.full(ent[i].shape, b"abcd", dtype="S4")
    elif k == "column-major":
        w = 2 * l
        if 1 in ent[w].shape:
            return None
        ent[w] = np.asfortranarray(ent[w])
    elif k == "missing array":
        del ent[i]
    elif k == "missing layer":
        del ent[2 * l:2 * l + 2]
    elif k == "surplus array":
        j = x % (len(ent) + 1)
        ent.insert(j, [np.ones((), "<f4"), np.ones(3, "<f4"), np.ones((2, 2), "<f4"), np.ones(0, "<f4"), ent[i], np.array([b"relu"]), np.ones(4, "<i4"), np.array([b""] * nn.L, dtype="S8")][d["y"] % 8])
    elif k == "surplus layer":
        ent += [np.ones((nn.sizes[-1], 2), "<f4"), np.ones(2, "<f4")]
    elif k == "swap weights and bias":
        ent[2 * l], ent[2 * l + 1] = ent[2 * l + 1], ent[2 * l]
    elif k == "swap layers":
        m = x % nn.L
        if ent[2 * l].shape == ent[2 * m].shape:
            return None
        ent[2 * l:2 * l + 2], ent[2 * m:2 * m + 2] = ent[2 * m:2 * m + 2], ent[2 * l:2 * l + 2]
        s = [ent[2 * q].shape for q in range(nn.L)]
        if all(s[q][1] == s[q + 1][0] for q in range(nn.L - 1)):
            return None
    elif k == "dimensions of weights":
        w = ent[2 * l]
        ent[2 * l] = [w.reshape(-1), w.reshape(w.shape + (1,)), w.reshape((1,) + w.shape), np.float32(1.0).reshape(()), w.reshape((1, 1) + w.shape), w.reshape((1,) * 6 + w.shape)][x % 6]
    elif k == "dimensions of bias":
        b = ent[2 * l + 1]
        ent[2 * l + 1] = [b.reshape(1, -1), b.reshape(-1, 1), np.float32(1.0).reshape(()), b.reshape((1,) * 7 + (-1,))][x % 4]
    elif k == "size of bias":
        n = nn.sizes[l + 1] + [-1, 1, -2, 2, 100][x % 5]
        ent[2 * l + 1] = np.ones(max(0, n), "<f4")
        if max(0, n) == nn.sizes[l + 1]:
            return None
    elif k == "inputs of a layer":
        if l == 0:
            return None
        n = max(0, nn.sizes[l] + [-1, 1, 5, -5, 64, -1000][x % 6])
        if n == nn.sizes[l]:
            return None
        ent[2 * l] = np.ones((n, nn.sizes[l + 1]), "<f4")
    elif k == "outputs of a layer":
        n = max(0, nn.sizes[l + 1] + [-1, 1, 5, -5, 64, -1000][x % 6])
        ent[2 * l] = np.ones((nn.sizes[l], n), "<f4")
        if n == nn.sizes[l + 1]:
            return None
    elif k == "transposed weights":
        w = ent[2 * l]
        if w.shape[0] == w.shape[1]:
            return None
        ent[2 * l] = np.ascontiguousarray(w.T)
    elif k == "no units":           # chains, but a layer is empty
        z = x % (nn.L + 1)
        s = list(nn.sizes); s[z] = 0
        ent = []
        for q in range(nn.L):
            ent += [np.ones((s[q], s[q + 1]), "<f4"), np.ones(s[q + 1], "<f4")]
    elif k == "number of names":
        n = max(0, nn.L + [-1, 1, 2, -2, 30, -1000][x % 6])
        if n == nn.L:
            return None
        act = np.array([b"relu"] * n, dtype="S12")
    elif k == "shape of names":
        act = [act.reshape(-1, 1), act.reshape(1, -1), act.reshape(-1, 1, 1), act.reshape((1,) * 7 + (-1,)), np.array(b"relu")][x % 5]
    elif k == "type of names":
        act = [np.array(nn.acts, dtype="<U12"), np.ones(nn.L, "<f4"), np.ones(nn.L, "<i4"), np.zeros(nn.L, "|u1"), np.array(nn.acts, dtype=">U12")][x % 5]
        if act.dtype.kind == "f" and nn.L == 0:
            return None
    elif k == "missing names":
        act = None
    elif k == "nothing but names":
        ent = []
    elif k == "names only, of no layer":
        ent = []; act = np.array([], dtype="S5")
    if act is not None:
        ent.insert(d["pos"] % (len(ent) + 1), act)
    return ent


KINDS = ["type", "type", "complex of the same bytes", "strings as parameters", "column-major", "missing array", "missing layer", "surplus array", "surplus layer", "swap weights and bias", "swap layers", "dimensions of weights", "dimensions of bias", "size of bias",
         "inputs of a layer", "outputs of a layer", "transposed weights", "no units", "number of names", "shape of names", "type of names", "missing names", "nothing but names", "names only, of no layer", "damaged entry", "none"]
defect = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "i": st.integers(0, 20), "x": st.integers(0, 60), "y": st.integers(0, 20), "pos": st.integers(0, 20)})


def structure(ctx, case):
    nn = NN(case["net"])
    d = case["defect"]
    ent = spoil(nn, d)
    if ent is None:
        ctx.label("does not apply: " + d["kind"])
        return
    files = [npy(a) for a in ent]
    if d["kind"] == "damaged entry":
        i = d["i"] % len(files)
        f = files[i]
        body = len(f) - 128
        if body < 1:
            return
        files[i] = [f[:-1], f[:128], f[:100], f[:-min(body, 1 + d["y"])], b"", b"X" + f[1:], f[:6] + b"\x02\x00" + f[8:], f[:8] + b"\xff\xff" + f[10:], f[:9]][d["x"] % 9]
    data = archive([("k%d" % i, f) for i, f in enumerate(files)], [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][case["method"]])
    if d["kind"] == "none":
        load(ctx, data, "a sound model", True, nn)
        return
    load(ctx, data, "defect '%s' in a model of sizes %s, arrays %s" % (d["kind"], nn.sizes, [(a.dtype.str, a.shape) for a in ent][:20]), False)
    ctx.label(d["kind"])
    ctx.nontrivial()


# ---- headers of single arrays are changed; numpy judges what they say ----
CANON = re.compile(rb"^\{'descr': '[<>|]\w+', 'fortran_order': (True|False), 'shape': \((\d+(, ?\d+)*,?)?\), ?\} *\n$")    # other texts may be read differently


def judge(files):
    """True/False if numpy can read everything and it is / is not one consistent network; None if that is open"""
    ps, names = [], None
    for f in files:
        if not CANON.match(f[10:10 + f[8] + 256 * f[9]] if len(f) > 10 else b""):
            return None
        try:
            v, (shape, fortran, dt), off = header_of(f)
        except Exception:
            return None
        n = dt.itemsize
        for s in shape:
            n *= s
        if v != (1, 0) or any(s < 0 for s in shape) or len(shape) > 8:
            return None
        if len(f) - off < n:
            return False
        if dt.kind == "S" and dt.itemsize:
            if names is not None:
                return False
            names = shape
        elif dt.str == "<f4" and not (fortran and len(shape) > 1 and 1 not in shape and 0 not in shape):
            if fortran and len(shape) > 1:
                return None         # both orders are the same
            ps.append(shape)
        elif dt.kind in "fiucb":
            return False
        else:
            return None
    if names is None or len(names) != 1 or len(ps) != 2 * names[0] or not ps:
        return False
    for i in range(0, len(ps), 2):
        if len(ps[i]) != 2 or len(ps[i + 1]) != 1 or ps[i][1] != ps[i + 1][0] or min(ps[i]) < 1 or (i and ps[i][0] != ps[i - 2][1]):
            return False
    return True


def headers(ctx, case):
    nn = NN(case["net"])
    ent = list(nn.entries())
    ent.insert(case["pos"] % (len(ent) + 1), nn.actarray())
    files = [npy(a) for a in ent]
    for e in case["edits"]:
        i = e["i"] % len(files)
        f = files[i]
        hl = f[8] + 256 * f[9]
        body = f[10 + hl:]
        if e["how"] == "header":
            t = header_text(e["header"]) + b"   \n"
        elif e["how"] == "replace":
            t = f[10:10 + hl].replace(e["a"].encode(), e["b"].encode(), 1)
        else:
            t = mutate(f[10:10 + hl], e["mut"])
        t = t[:65535]
        files[i] = f[:8] + bytes([len(t) & 255, len(t) >> 8]) + t + body
    data = archive([("k%d" % i, f) for i, f in enumerate(files)])
    j = judge(files)
    r = load(ctx, data, "entries with edited headers %s" % [f[10:100] for f in files][:6], j if j is False else None)
    ctx.label("headers: %s, %s" % ({True: "consistent", False: "inconsistent", None: "open"}[j], "accepted" if r else "refused"))
    if any(npy(a) != f for a, f in zip(ent, files)):
        ctx.nontrivial()


# ---- bytes of the archive ----
def bytes_(ctx, case):
    nn = NN(case["net"])
    ent = list(nn.entries())
    ent.insert(case["pos"] % (len(ent) + 1), nn.actarray())
    data = archive([("k%d" % i, npy(a)) for i, a in enumerate(ent)], [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][case["method"]])
    data = mutate(data, case["mut"])
    r = load(ctx, data, "mutated archive")
    ctx.label("bytes: %s" % ("accepted" if r else "refused"))
    if case["mut"]:
        ctx.nontrivial()


# ---- arbitrary archives ----
def anything(ctx, case):
    files = [npy_bytes(r) for r in case["files"]]
    data = archive([("k%d" % i, f) for i, f in enumerate(files)]) if case["zip"] else b"".join(files)
    j = judge(files) if case["zip"] else None
    load(ctx, data, "archive of arbitrary arrays", j if j is False else None)
    ctx.nontrivial()


edit = st.one_of(
    st.fixed_dictionaries({"i": st.integers(0, 20), "how": st.just("header"), "header": header()}),
    st.fixed_dictionaries({"i": st.integers(0, 20), "how": st.just("replace"), "a": st.sampled_from(["<f4", "|S", "False", "(", ",", "0", "1", "2", "3", "'shape'", "'descr'", ")"]),
                           "b": st.sampled_from(["<f8", ">f4", "<f2", "|f4", "=f4", "<f04", "<S4", "|S0", "|S1", "|S-5", "True", "", "0", "1", "2", "-1", "4294967297", "4294967298", "18446744073709551617", "2147483648", "1,1", "(", "()", ","])}),
    st.fixed_dictionaries({"i": st.integers(0, 20), "how": st.just("mut"), "mut": st.lists(mutation, min_size=1, max_size=2)}))
base = {"net": small_nets, "pos": st.integers(0, 9)}
RULE = "a case is nontrivial if a defect was applied"
if __name__ == "__main__":
    sys.exit(main("P13", [
        Arm("structure", st.fixed_dictionaries({"net": small_nets, "defect": defect, "method": st.integers(0, 1)}), structure, 40000, 500000),
        Arm("headers", st.fixed_dictionaries(dict(base, edits=st.lists(edit, min_size=1, max_size=3))), headers, 16000, 300000),
        Arm("bytes", st.fixed_dictionaries(dict(base, mut=mutations, method=st.integers(0, 1))), bytes_, 16000, 300000),
        Arm("anything", st.fixed_dictionaries({"files": st.lists(npys(), max_size=5), "zip": st.integers(0, 7)}), anything, 6000, 100000)], RULE))
