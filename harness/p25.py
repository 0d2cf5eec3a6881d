# P25 - array lists behave as ordered sequences
import sys, os, io, zipfile
import numpy as np
from pyprop import *
from arrays import *
from p14 import new, METHODS, WANT

CHARS = st.one_of(st.sampled_from("abcXYZ019 ._-%/\\:*?\"'()"), st.characters(min_codepoint=32, exclude_categories=("Cs", "Cc")))


def fit(s, n):
    """at most n bytes, no slash at the end"""
    while len(s.encode()) > n:
        s = s[:-1]
    return s.rstrip("/")


@st.composite
def names(draw):
    kind = draw(st.sampled_from(["-", "d", "s", "ds"]))
    r = {"kind": kind}
    goal = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 79, 80, 81, 82, 200, 5000]))
    text = draw(st.text(CHARS, min_size=1, max_size=12))
    if goal:
        unit = draw(st.sampled_from(["x", "\u00e6", "\u4e2d"]))
        text = fit(text, goal)
        text += unit * ((goal - len(text.encode())) // len(unit.encode()))
        text += "y" * (goal - len(text.encode()))
    r["text"] = text.rstrip("/") or "z"
    r["int"] = draw(st.one_of(st.integers(0, 20), st.integers(-2 ** 31, 2 ** 31 - 1)))
    r["fmt"] = draw(st.sampled_from({"-": [""], "d": ["%d", "weight_%d.npy", "%03d", "%d%%", "a b %x", "%12d"], "s": ["%s", "<%s>", "%s.npy", "%20s"], "ds": ["%d-%s", "layer%d/%s.npy", "%d%% %s"]}[kind]))
    return r


def real_name(r):
    """what printf makes of it"""
    t = r["text"].encode()
    if r["kind"] == "-":
        return t
    f = r["fmt"].encode()
    if r["kind"] == "d":
        i = r["int"] & 0xffffffff if b"%x" in f else r["int"]
        return f % i
    if r["kind"] == "s":
        return f % t
    return f % (r["int"], t)


def args(r):
    if r["kind"] == "-":
        return ["-", hx(r["text"].replace("%", "%%"))]
    return [r["kind"], hx(r["fmt"])] + ([r["int"]] if "d" in r["kind"] else []) + ([hx(r["text"])] if "s" in r["kind"] else [])


def history(ctx, case):
    w = ctx.w

    def verify(model, what):
        check(int(w.cmd("llen", "l")[1]) == len(model), "%s: the length is %s instead of %d", what, w.cmd("llen", "l")[1], len(model))
        check(int(w.cmd("lcount", "l")[1]) == len(model), "%s: the list has %s elements instead of %d", what, w.cmd("lcount", "l")[1], len(model))
        for i, (nm, m) in enumerate(model):
            r = w.cmd("litem", "l", i, hx("raw"))
            got = None if r[1] == "null" else unhx(r[1])
            check(got == nm, "%s: element %d is called %r instead of %r", what, i, got, nm)
            m.same_desc(r[2:], ctx.read("raw"), "%s: element %d" % (what, i), True)

    def save(model, op, k, what):
        f = "z%d.npz" % k
        named = [nm if nm is not None else b"arr_%d.npy" % i for i, (nm, m) in enumerate(model)]
        dup = len(set(named)) < len(named)
        if dup and any(nm is None for nm, m in model):      # which position an unnamed one has among equal names is left open
            return None
        if op["over"]:
            ctx.write(f, [b"junk" * 100, ctx_zip(["old.npy", "older.npy"])][op["over"] - 1])
        meth, fl = METHODS[op["method"] % 5]
        r = int((w.cmd("lsave", "l", hx(f)) if op["method"] == 0 else w.cmd("lsavec", "l", hx(f), meth, fl))[1])
        if not model:
            check(r == 0, "%s: %d arrays of an empty list written", what, r)
            return None
        es = unzip(ctx.read(f), what)
        check(r == len(es), "%s: %d arrays are reported written, the archive has %d", what, r, len(es))
        got = [e.filename.encode() for e, _ in es]
        if dup:         # an archive cannot hold two entries of one name
            ctx.label("equal names")
            firsts = list(dict.fromkeys(named))
            check(got == firsts, "%s: the names are %r instead of %r", what, got, firsts)
            model2 = [model[named.index(x)] for x in firsts]
        else:
            check(got == named, "%s: the names are %r instead of %r", what, got, named)
            model2 = model
        for (e, data), (nm, m) in zip(es, model2):
            numpy_reads(data, m, what)
            check(e.compress_type in WANT[meth], "%s: compression %d was requested, %r has %d", what, meth, e.filename, e.compress_type)
        if not dup:
            for i, (nm, m) in enumerate(model):
                model[i] = (named[i], m)
        return f, [(x, m) for x, (nm, m) in zip(got, model2)]

    def go():
        model = []
        for k, op in enumerate(case):
            kind, what = op["op"], "step %d (%s)" % (k, op["op"])
            if kind in ("append", "prepend"):
                for j in range(op["times"]):
                    m = M(op["array"])
                    if m.end == "|":
                        m.given = ""
                    new(ctx, "a", m)
                    nm = dict(op["name"])
                    if op["times"] > 1:
                        nm["kind"], nm["fmt"], nm["int"] = "ds", "%d_%s", j
                    real = real_name(nm)
                    r = w.cmd("lappend" if kind == "append" else "lprepend", "l", "a", *args(nm))
                    if len(real) <= 80:
                        check(r[1] == "added", "%s: a name of %d characters is refused", what, len(real))
                        if kind == "append":
                            model.append((real, m))
                        else:
                            model.insert(0, (real, m))
                    else:
                        ctx.label("too long name")
                        check(r[1] == "refused", "%s: a name of %d characters is accepted", what, len(real))
                        w.cmd("afree", "a")
            elif kind == "unname" and model:
                i = op["n"] % len(model)
                if model[i][0] is not None:
                    w.cmd("lunname", "l", i)
                    model[i] = (None, model[i][1])
                    ctx.label("unnamed")
            elif kind == "save":
                save(model, op, k, what)
            elif kind == "reload":
                r = save(model, op, k, what)
                if not r:
                    continue
                f, model2 = r
                w.cmd("lfree", "l")
                check(w.cmd("lload", "l", hx(f))[0] == "ok", "%s: the archive is refused", what)
                model = model2
                for nm, m in model:
                    m.given = m.end
                ctx.label("reload")
            elif kind == "numpy":       # an archive made by someone else
                w.cmd("lfree", "l")
                f, b, model = "np%d.npz" % k, io.BytesIO(), []
                with zipfile.ZipFile(b, "w", [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2][op["method"] % 3]) as z:
                    for j, d in enumerate(op["arrays"]):
                        m = M(d); m.given = m.end; a = m.from_numpy(); s = io.BytesIO(); np.save(s, a)
                        nm = "%d" % j + fit(op["text"], 60000) + "."
                        z.writestr(nm, s.getvalue()); model.append((nm.encode(), m))
                ctx.write(f, b.getvalue())
                check(w.cmd("lload", "l", hx(f))[0] == "ok", "%s: the archive is refused", what)
                ctx.label("written by numpy")
            elif kind == "free":
                w.cmd("lfree", "l")
                model = []
            verify(model, what)
        w.cmd("lfree", "l")
        for f in os.listdir(ctx.dir):
            if not f.startswith("worker."):
                os.unlink(ctx.path(f))
        ctx.top = max(ctx.top, len(model))
    ctx.top = 0
    leakcheck(ctx, go)
    ctx.label("length %s" % ("0" if not ctx.top else "1" if ctx.top == 1 else "2-9" if ctx.top < 10 else "10-255" if ctx.top < 256 else "256+"))
    if sum(op["op"] in ("append", "prepend", "numpy") for op in case) > 1:
        ctx.nontrivial()


_z = {}


def ctx_zip(names):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n in names:
            s = io.BytesIO(); np.save(s, np.arange(3)); z.writestr(n, s.getvalue())
    return b.getvalue()


small = arrays(types=["f4", "f4", "S3", "i8", "b1", "u1"], limit=60, endians=("",))
add = st.fixed_dictionaries({"op": st.sampled_from(["append", "prepend"]), "array": small, "name": names(), "times": st.sampled_from([1, 1, 1, 1, 1, 1, 2, 7, 40])})
un = st.fixed_dictionaries({"op": st.just("unname"), "n": st.integers(0, 50)})
sv = st.fixed_dictionaries({"op": st.sampled_from(["save", "reload"]), "method": st.integers(0, 4), "over": st.integers(0, 2)})
npy = st.fixed_dictionaries({"op": st.just("numpy"), "method": st.integers(0, 2), "arrays": st.lists(small, min_size=1, max_size=5), "text": st.one_of(st.text(CHARS, max_size=10), st.text(CHARS, min_size=1, max_size=3).map(lambda s: s * 2000))})
fr = st.fixed_dictionaries({"op": st.just("free")})
cases = st.lists(st.one_of(add, add, add, sv, un, npy, fr), min_size=1, max_size=14)
tiny = arrays(types=["f4", "u1"], limit=4, endians=("",))
long_add = st.fixed_dictionaries({"op": st.sampled_from(["append", "append", "prepend"]), "array": tiny, "name": names(), "times": st.sampled_from([1, 30, 60, 130, 300, 700, 1100])})
long_cases = st.tuples(long_add, st.lists(st.one_of(long_add, sv, un), max_size=2), sv, st.lists(sv, max_size=1)).map(lambda t: [t[0]] + t[1] + [t[2]] + t[3])
RULE = "a case is nontrivial if at least two operations add arrays"
if __name__ == "__main__":
    sys.exit(main("P25", [Arm("history", cases, history, 12000, 250000), Arm("long", long_cases, history, 120, 4000)], RULE))
