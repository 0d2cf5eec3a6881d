# P12 - saving and loading a model
import sys, os, io, zipfile
import numpy as np
from pyprop import *
from models import *

NAMECH = st.sampled_from("abcz09 ._-%+=,@#\u00e6\u4e2d")


@st.composite
def filename(draw):
    kind = draw(st.sampled_from(["-", "s", "d", "ds"]))
    goal = draw(st.sampled_from([0] * 8 + [126, 127, 128, 129, 130, 200]))
    t = "n" + draw(st.text(NAMECH, max_size=10))
    if goal:
        t = t + "x" * (goal - len(t.encode()))
    return {"kind": kind, "text": t, "int": draw(st.one_of(st.integers(0, 100), st.integers(-2 ** 31, 2 ** 31 - 1))), "pad": draw(st.integers(0, 2)), "goal": goal}


def nameargs(f):
    """(words for the worker, resulting name)"""
    k, t = f["kind"], f["text"]
    if k == "-":
        return ["-", hx(t.replace("%", "%%"))], t.encode()
    if k == "s":
        return ["s", hx("%s"), hx(t)], t.encode()
    if k == "d":
        fmt = ["m%d.npz", "after-%d-epochs.npz", "%05d"][f["pad"]]
        return ["d", hx(fmt), f["int"]], fmt.encode() % f["int"]
    fmt = "%d-%s"
    if f["goal"]:
        t = t[:max(1, f["goal"] - 1 - len(str(f["int"])))] if t.isascii() else t
    return ["ds", hx(fmt), f["int"], hx(t)], fmt.encode() % (f["int"], t.encode())


def roundtrip(ctx, case):
    w = ctx.w
    nets_ = [NN(d) for d in case["nets"]]
    if any("@" in a for n in nets_ for a in n.acts):
        provide(ctx)
        ctx.label("custom activations, names of %d.. characters" % (max(len(a) for n in nets_ for a in n.acts) // 64 * 64))

    def go():
        for e in os.listdir(ctx.dir):
            if not e.startswith("worker."):
                os.unlink(ctx.path(e))
        cur, nn, x0 = "n", nets_[0], case["seed"]
        nn.create(ctx, "n")
        y0 = nn.predict(ctx, "n", x0)
        for k, op in enumerate(case["ops"]):
            what = "step %d (%s)" % (k, op["op"])
            if op["op"] == "replace":           # another network, which may be saved to the same file
                w.cmd("nfree", cur)
                nn = nets_[op["n"] % len(nets_)]
                nn.create(ctx, cur)
                y0 = nn.predict(ctx, cur, x0)
                continue
            if op["op"] == "save":
                words, name = nameargs(op["name"])
                p = os.path.join(ctx.dir.encode(), name)
                old = None
                if op["over"]:
                    old = [b"", b"junk" * 1000][op["over"] - 1]
                    if len(name) < 250:
                        with open(p, "wb") as f:
                            f.write(old)
                before = set(os.listdir(ctx.dir))
                w.trim()
                w.cmd("nsave", cur, *words)
                if len(name) > 128:
                    ctx.label("too long name")
                    check(set(os.listdir(ctx.dir)) == before, "%s: a name of %d characters: the files are now %s", what, len(name), sorted(os.listdir(ctx.dir)))
                    check(w.log() != "", "%s: a name of %d characters is refused without a warning", what, len(name))
                    if old is not None and len(name) < 250:
                        check(open(p, "rb").read() == old, "%s: refused, but the file changed", what)
                    nn.same(ctx, cur, what)
                    continue
                check(os.path.exists(p), "%s: there is no file %r (there are %s)", what, name, sorted(os.listdir(ctx.dir)))
                check(set(os.listdir(ctx.dir.encode())) <= {os.fsencode(x) for x in before} | {name}, "%s: stray files: %s", what, sorted(os.listdir(ctx.dir)))
                check(w.log() == "", "%s: warnings: %s", what, w.log()[:200])
                with open(p, "rb") as f:
                    data = f.read()
                verify_file(data, nn, what)
                try:
                    z = np.load(io.BytesIO(data), allow_pickle=False)
                    sum(z[q].size for q in z.files)
                except Exception as e:
                    raise Violation("%s: numpy cannot load the archive: %s" % (what, e))
                nn.same(ctx, cur, what + ", the saved network")
            else:
                ent = list(nn.entries())
                pos = op["pos"] % (len(ent) + 1)
                ent.insert(pos, nn.actarray(op["extra"]))
                ctx.label("names first" if pos == 0 else "names last" if pos == len(ent) - 1 else "names in between")
                name = b"from_numpy.npz"
                if op["method"] < 2:
                    keys = ["w%d" % i for i in range(len(ent))]
                    with open(ctx.path("from_numpy.npz"), "wb") as f:
                        (np.savez if op["method"] == 0 else np.savez_compressed)(f, **dict(zip(keys, ent)))
                elif op["method"] == 2:
                    with open(ctx.path("from_numpy.npz"), "wb") as f:
                        np.savez(f, *ent)
                else:
                    ctx.write("from_numpy.npz", archive([("%s%d%s" % (op["key"], i, op["key"]), npy(a)) for i, a in enumerate(ent)], [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2][op["method"] % 3]))
            w.cmd("nfree", cur)
            r = w.cmd("nload", cur, hx(name))
            check(r[0] == "ok", "%s: the file is refused", what)
            nn.same(ctx, cur, what)
            y = nn.predict(ctx, cur, x0)
            check(y.tobytes() == y0.tobytes() or ((y == y0) | (np.isnan(y) & np.isnan(y0))).all(), "%s: the predictions are %s instead of %s", what, y[:8], y0[:8])
        w.cmd("nfree", cur)
    leakcheck(ctx, go)
    ctx.label("layers %s" % (nets_[0].L if nets_[0].L < 7 else "7+" if nets_[0].L < 100 else "100+" if nets_[0].L < 1000 else "1000+"))
    ctx.label("parameters 10^%d" % (len(str(len(nets_[0].flat()) // 4)) - 1))
    ctx.label("style %d" % case["nets"][0]["style"])
    if any(op["op"] in ("save", "numpy") for op in case["ops"]):
        ctx.nontrivial()


sv = st.fixed_dictionaries({"op": st.just("save"), "name": filename(), "over": st.sampled_from([0, 0, 0, 1, 2])})
nu = st.fixed_dictionaries({"op": st.just("numpy"), "pos": st.integers(0, 20), "extra": st.sampled_from([0, 0, 1, 5, 50]), "method": st.integers(0, 5), "key": st.text(st.sampled_from("ab_/.\u00e6"), max_size=4)})
rp = st.fixed_dictionaries({"op": st.just("replace"), "n": st.integers(0, 3)})
cases = st.fixed_dictionaries({"nets": st.lists(st.one_of(nets(), nets(), nets(custom=50)), min_size=1, max_size=2), "seed": st.integers(0, 1000), "ops": st.lists(st.one_of(sv, sv, nu, nu, rp), min_size=1, max_size=5)})
big = st.fixed_dictionaries({"nets": st.lists(hugenets(), min_size=1, max_size=1), "seed": st.integers(0, 1000), "ops": st.lists(st.one_of(sv, nu), min_size=1, max_size=2)})
RULE = "a case is nontrivial if a model is saved or an archive written by numpy is loaded"
if __name__ == "__main__":
    sys.exit(main("P12", [Arm("roundtrip", cases, roundtrip, 24000, 400000), Arm("big", big, roundtrip, 160, 6000)], RULE))
