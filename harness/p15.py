# P15 - malformed array files
import sys, os, io, zipfile
import numpy as np
from pyprop import *
from arrays import *
from malformed import *


def complete(words, raw, data, what):
    """the array which was loaded is a complete one: all that shape and element size announce is in the file, after the header"""
    nd = int(words[0])
    shape = [int(x) for x in words[1:1 + nd]]
    size = int(words[3 + nd])
    check(0 <= nd <= 8, "%s: %d dimensions", what, nd)
    check(size > 0, "%s: elements of %d bytes", what, size)
    n = size
    for x in shape:
        n *= x
    check(data[:6] == b"\x93NUMPY", "%s: loaded without the magic number", what)
    off = 10 + data[8] + 256 * data[9]
    check(off + n <= len(data), "%s: shape %s and elements of %d bytes need %d bytes, but the file has %d after its header", what, shape, size, n, len(data) - off)
    check(raw == data[off:off + n], "%s: the contents are not those of the file", what)


def one(ctx, case):
    w = ctx.w
    data = npy_bytes(case)
    loaded = []

    def go():
        del loaded[:]
        ctx.write("f.npy", data)
        for how in ("aload", "ammap"):
            r = w.cmd(how, "a", hx("f.npy"))
            loaded.append(r[0] == "ok")
            if r[0] == "ok":
                d = w.cmd("adesc", "a", hx("raw"))[1:]
                complete(d, ctx.read("raw"), data, how)
                if case["kind"] in ("sound", "trailing"):
                    model_of(case).same_desc(d, ctx.read("raw"), how)
                out = unhx(w.cmd("adump", "a")[1])
                check(out != b"", "nothing is printed")
                w.cmd("asave", "a", hx("copy.npy"))
                w.cmd("lappend", "l", "a", "-", hx("x"))
                w.cmd("lsave", "l", hx("copy.npz"))
                w.cmd("lfree", "l")
                check(os.path.exists(ctx.path("copy.npy")), "the array cannot be saved")
                if case["kind"] in ("sound", "trailing"):
                    numpy_reads(ctx.read("copy.npy"), model_of(case), "saved again")
                    check(unzip(ctx.read("copy.npz"), "saved again")[0][1] == ctx.read("copy.npy"), "the archive holds something else")
            check(w.cmd("maps", hx("f.npy"))[1] == "0", "%s: %s", how, "the file stays mapped after the array was freed" if r[0] == "ok" else "the refused file stays mapped")
        check(ctx.read("f.npy") == data, "the file was changed")
    leakcheck(ctx, go)
    k = case["kind"]
    ctx.label("%s %s" % (k, "accepted" if loaded[0] else "refused"))
    if k in ("sound", "trailing"):
        check(loaded[0] and loaded[1], "a sound file is refused by %s", "npy_array_mmap" if loaded[0] else "npy_array_load")
    if k == "truncated":
        check(not loaded[0] and not loaded[1], "a truncated file is accepted by %s", "npy_array_load" if loaded[0] else "npy_array_mmap")
    if k != "sound":
        ctx.nontrivial()


def archives_(ctx, case):
    w = ctx.w
    files = [npy_bytes(r) for r in case["files"]]
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][case["method"]]) as z:
        for i, d in enumerate(files):
            z.writestr("e%d" % i, d)
    data = mutate(b.getvalue(), case["mut"])
    sound = not case["mut"]
    n = [0]

    def go():
        ctx.write("f.npz", data)
        r = w.cmd("lload", "l", hx("f.npz"))
        n[0] = 0
        if r[0] == "ok":
            n[0] = int(w.cmd("llen", "l")[1])
            for i in range(n[0]):
                d = w.cmd("litem", "l", i, hx("raw"))
                nm = unhx(d[1]).decode("utf-8", "replace")
                if sound:
                    k = int(nm[1:])
                    complete(d[2:], ctx.read("raw"), files[k], nm)
                    if case["files"][k]["kind"] in ("sound", "trailing"):
                        model_of(case["files"][k]).same_desc(d[2:], ctx.read("raw"), nm)
            got = int(w.cmd("lsave", "l", hx("copy.npz"))[1])
            check(got <= n[0], "%d arrays were written of a list of %d", got, n[0])
            if sound:
                check(got == n[0] and len(unzip(ctx.read("copy.npz"), "saved again")) == n[0], "%d arrays were written instead of %d", got, n[0])
            w.cmd("ldetach", "l", "a", n[0] - 1)
            w.cmd("adump", "a"); w.cmd("afree", "a")
            w.cmd("lfree", "l")
        else:
            check(not sound or all(r["kind"] != "sound" for r in case["files"]), "an archive with sound arrays is refused")
        if os.path.exists(ctx.path("copy.npz")):
            os.unlink(ctx.path("copy.npz"))
        check(ctx.read("f.npz") == data, "the file was changed")
    leakcheck(ctx, go)
    if sound:
        must = [i for i, r in enumerate(case["files"]) if r["kind"] in ("sound", "trailing")]
        no = [i for i, r in enumerate(case["files"]) if r["kind"] == "truncated"]
        check(len(must) <= n[0] <= len(files) - len(no), "%d arrays were loaded of %d, of which %d are sound and %d truncated", n[0], len(files), len(must), len(no))
    ctx.label("archive of sound container" if sound else "mutated archive %s" % ("accepted" if n[0] else "refused"))
    ctx.nontrivial()


arch = st.fixed_dictionaries({"files": st.lists(npys(), max_size=5), "method": st.integers(0, 1), "mut": mutations})
RULE = "every case is nontrivial except an unchanged sound file"
if __name__ == "__main__":
    sys.exit(main("P15", [Arm("file", npys(), one, 30000, 800000), Arm("archive", arch, archives_, 16000, 400000)], RULE))
