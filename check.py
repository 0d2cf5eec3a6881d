#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]   - build what the check needs from /repo and run it."""
import sys, os, json, subprocess, time, hashlib, glob, shutil, argparse, re, tempfile, atexit, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
BLASINC = ["-I/usr/include/x86_64-linux-gnu/openblas-pthread"]

VARIANTS = {  # name: (cpu flags needed, compiler flags, libs)
    "sse": ([], [], []),
    "avx": (["avx"], ["-mavx"], []),
    "avx2": (["avx2"], ["-mavx2"], []),
    "avx2fma": (["avx2", "fma"], ["-mavx2", "-mfma"], []),
    "avx512": (["avx512f"], ["-mavx512f"], []),
    "avx512fma": (["avx512f", "fma"], ["-mavx512f", "-mfma"], []),
    "blas": (["avx2", "fma"], ["-mavx2", "-mfma", "-DUSE_CBLAS"] + BLASINC, ["-lopenblas"]),
}
TSAN = ["-fsanitize=thread", "-g1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g1", "-fno-sanitize=vptr"]


class BuildError(Exception):
    pass


def cpu():
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            return set(l.split(":")[1].split())
    return set()


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def digest(files, extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def lib_sources():
    return sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/npy_array/*.c"))


def lib_headers():
    return sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/npy_array/*.h"))


def atomic(cmd, out):
    """cmd has the placeholder OUT"""
    tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())        # several threads may build the same file
    run([tmp if c == "OUT" else c for c in cmd])
    os.rename(tmp, out)


def build_objs(tag, flags, cc="gcc", jobs=8):
    srcs = lib_sources() + [H + "/shim.c"]
    key = digest(srcs + lib_headers(), (tag, flags, cc))
    d = os.path.join(BUILD, "obj-%s-%s" % (tag, key))
    if not os.path.exists(d + "/done"):
        for old in glob.glob(os.path.join(BUILD, "obj-%s-*" % tag)):
            if time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        inc = ["-I" + REPO + "/src", "-I" + REPO + "/npy_array"]

        def one(s):
            atomic([cc, "-std=c99", "-fPIC", "-w"] + flags + inc + ["-c", "-o", "OUT", s], os.path.join(d, os.path.basename(s) + ".o"))
        with cf.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, srcs))
        open(d + "/done", "w").close()
    return d


def modeflags(san):
    return {"": [], "san": SAN, "tsan": TSAN}[san]


def build_lib(name, san=""):
    """san: "" plain, "san" address and undefined behaviour sanitizer, "tsan" thread sanitizer (without OpenMP)"""
    need, flags, libs = VARIANTS[name]
    opt = ["-O1"] + modeflags(san) if san else ["-O3"]
    tag = name + ("-" + san if san else "")
    omp = [] if san == "tsan" else ["-fopenmp"]
    d = build_objs(tag, opt + omp + flags)
    out = os.path.join(d, "lib_%s.so" % name)
    if not os.path.exists(out):
        atomic(["gcc", "-shared", "-o", "OUT"] + omp + modeflags(san) + sorted(glob.glob(d + "/*.o")) + ["-lzip", "-lm", "-ldl"] + libs, out)
    return out


def build_exe(prop, san=""):
    if prop in PY:
        prop = "worker"
    src = os.path.join(H, prop.lower() + ".cpp")
    hdr = glob.glob(H + "/*.hpp")
    flags = ["-std=c++17", "-O1", "-g1", "-w", "-rdynamic", "-fno-builtin"] + modeflags(san)
    key = digest([src] + hdr, flags)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s%s-%s" % (prop.lower(), "-" + san if san else "", key))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(BUILD, "%s%s-????????????????" % (prop.lower(), "-" + san if san else ""))):
            try:
                os.unlink(old)
            except FileNotFoundError:
                pass
        atomic(["g++"] + flags + [src, "-o", "OUT", "-ldl", "-lpthread", "-lutil", "-lzip"], out)
    return out


def build_predonly(flags):
    """the library without what training needs (-DPREDICTION_ONLY): the sources that compile that way"""
    srcs = lib_sources()
    d = os.path.join(BUILD, "predonly-" + digest(srcs + lib_headers(), flags))
    out = os.path.join(d, "lib.so")
    if os.path.exists(out):
        return out
    for old in glob.glob(os.path.join(BUILD, "predonly-*")):
        if time.time() - os.path.getmtime(old) > 3600:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    objs = []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + ".o")
        try:
            atomic(["gcc", "-std=c99", "-O3", "-fPIC", "-fopenmp", "-DPREDICTION_ONLY", "-w", "-I" + REPO + "/src", "-I" + REPO + "/npy_array"] + flags + ["-c", "-o", "OUT", s], o)
            objs.append(o)
        except BuildError:
            pass
    atomic(["gcc", "-shared", "-fopenmp", "-Wl,-z,lazy", "-o", "OUT"] + objs + ["-lzip", "-lm", "-ldl"], out)
    return out


def build_fuzzer():
    """the library and the fuzz target, by clang; OpenMP pragmas are without effect in it"""
    srcs = lib_sources(); src = os.path.join(H, "fuzz.cpp")
    d = os.path.join(BUILD, "fuzzer-" + digest(srcs + lib_headers() + [src], "1"))
    out = os.path.join(d, "fuzz")
    if os.path.exists(out):
        return out
    for old in glob.glob(os.path.join(BUILD, "fuzzer-*")):
        if time.time() - os.path.getmtime(old) > 3600:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    ask = lambda f: subprocess.check_output(["gcc", "-print-file-name=" + f], text=True).strip()
    shutil.copy(ask("include/omp.h"), d)
    fl = ["-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=function,vptr", "-fno-sanitize-recover=undefined", "-mavx2", "-mfma",
          "-D__malloc__(x)=__malloc__", "-I" + d, "-I" + REPO + "/src", "-I" + REPO + "/npy_array"]
    objs = [os.path.join(d, os.path.basename(s) + ".o") for s in srcs + [src]]
    def one(i):
        s = (srcs + [src])[i]
        atomic((["clang++", "-std=c++17"] if s == src else ["clang", "-std=gnu99", "-Ddlopen=fuzz_dlopen"]) + fl + ["-c", "-o", "OUT", s], objs[i])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(len(objs))))
    atomic(["clang++", "-fsanitize=address,undefined,fuzzer", "-o", "OUT"] + objs + ["-lzip", "-lm", "-ldl", ask("libgomp.so")], out)
    return out


def build_custom():
    """the template of the custom activation libraries (P23)"""
    src = os.path.join(H, "act_template.c")
    out = os.path.join(BUILD, "act_template-%s.so" % digest([src], ()))
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        atomic(["gcc", "-shared", "-fPIC", "-O1", "-w", "-nostdlib", "-fno-builtin", "-ffp-contract=off", "-o", "OUT", src], out)
    return out


def usable(names):
    have = cpu()
    out = []
    for n in names:
        if all(f in have for f in VARIANTS[n][0]):
            out.append(n)
    return out


ALL = list(VARIANTS)
# property: list of runs (variants, sanitizers)
CXX = {}


def cxx(prop, variants, san=""):
    CXX.setdefault(prop, []).append((variants, san))


for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P20", "P21", "P27"):
    cxx(_p, ALL)
cxx("P11", ALL)
cxx("P22", ALL)
cxx("P22", ALL, "san")
cxx("P23", ALL)
cxx("P26", ["sse", "avx2fma", "blas"])
cxx("P23", ["sse", "avx2fma", "blas"], "san")
cxx("P11", ["avx2fma", "sse"], "tsan")
for _p in ("P16", "P17", "P18", "P19", "P24"):
    cxx(_p, ["sse", "avx2fma"])


PY = ("P12", "P13", "P14", "P15", "P25")      # Hypothesis in Python, with a worker process
PYTHON = "/opt/veriftools/pyvenv/bin/python"
for _p in ("P12", "P13", "P14", "P15", "P25"):
    cxx(_p, ["avx2fma", "sse"], "san")


FUZZ = ("P13", "P15")


def merge(stats):
    m = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "labels": {}, "arms": {}, "samples": [], "rule": "", "unconfirmed": 0}
    for s in stats:
        for k in ("evaluations", "distinct_nontrivial", "discarded", "unconfirmed"):
            m[k] += s.get(k, 0)
        for k in ("labels", "arms"):
            for a, b in s.get(k, {}).items():
                m[k][a] = m[k].get(a, 0) + b
        m["samples"] += s.get("samples", [])[:6]
        if s.get("rule") and s["rule"] not in m["rule"]:
            m["rule"] += ("; " if m["rule"] else "") + s["rule"]
    return m


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.strip())
    return out


def setup():
    """build everything once, so that the checks find it (they rebuild what has changed)"""
    os.makedirs(BUILD, exist_ok=True)
    jobs = set()
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(build_exe, p, san) for p, san in sorted({("worker" if p in PY else p, s) for p in CXX for _, s in CXX[p]})]
            for n, san in sorted({(n, s) for p in CXX for v, s in CXX[p] for n in usable(v)}):
                build_lib(n, san)
            for f in fs:
                f.result()
            build_custom()
            build_fuzzer()
            for n in usable(["sse", "avx2fma", "avx512"]):
                build_predonly(VARIANTS[n][1])
    except BuildError as e:
        print("BUILD FAILED", e)
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--arm")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    if prop == "setup":
        return setup()
    t0 = time.time()
    rd = os.path.join(VERIF, "replays")
    for d in (BUILD, rd, os.path.join(VERIF, "evidence")):
        os.makedirs(d, exist_ok=True)
    env = dict(os.environ)
    env.update({"OMP_WAIT_POLICY": "passive", "OMP_NUM_THREADS": "2", "OPENBLAS_NUM_THREADS": "1", "OMP_DYNAMIC": "false",
                "LC_ALL": "C.UTF-8", "MALLOC_ARENA_MAX": "2",
                "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=12",
                "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0",
                "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
                "VERIF_REPO": REPO, "VERIF_BUILD": BUILD, "VERIF_HARNESS": H})
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=shm)
    os.chmod(scratch, 0o755)
    env["SCRATCH"] = scratch
    atexit.register(shutil.rmtree, scratch, True)
    stats, viols, rc_bad = [], [], None
    try:
        jobs = []
        for variants, san in CXX.get(prop, []):
            names = usable(variants)
            with cf.ThreadPoolExecutor(4) as ex:
                fe = ex.submit(build_exe, prop, san)
                so = list(ex.map(lambda n: build_lib(n, san), names))
                exe = fe.result()
            # one directory with links to all variants
            ld = os.path.join(BUILD, "libs-%s-%s-%d" % (prop, san or "opt", os.getpid()))
            shutil.rmtree(ld, ignore_errors=True)
            os.makedirs(ld)
            for n, s in zip(names, so):
                os.symlink(s, os.path.join(ld, "lib_%s.so" % n))
            jobs.append((exe, ld, names, san))
        if a.build_only:
            for j in jobs:
                shutil.rmtree(j[1])
            return 0
        fuzzing = prop in FUZZ and (not a.arm or a.arm == "fuzz")
        if a.replay:
            fuzzing = prop in FUZZ and '"fuzz": ' in open(a.replay).read()
        if fuzzing:
            fz = build_fuzzer()
            if a.replay or a.arm:
                for j in jobs:
                    shutil.rmtree(j[1], ignore_errors=True)
                jobs = []
            jobs.append((fz, None, [], "fuzz"))
        for exe, ld, names, san in jobs:
            if viols and time.time() - t0 > 300:
                shutil.rmtree(ld or scratch + "/none", ignore_errors=True)
                continue
            if san == "fuzz":
                e = dict(env); e["FUZZER"] = exe; e["PYTHONPATH"] = H; e["PYTHONDONTWRITEBYTECODE"] = "1"
                out = os.path.join(BUILD, "out-%s-fuzz-%d.json" % (prop, os.getpid()))
                cmd = [PYTHON, os.path.join(H, "fuzz.py"), "--prop", prop, "--seed", str(a.seed), "--tier", a.tier, "--out", out, "--replay-dir", rd, "--scale", a.scale] + (["--replay", a.replay] if a.replay else [])
                p = subprocess.run(cmd, env=e)
                if a.replay:
                    return p.returncode
                if p.returncode not in (0, 1) or not os.path.exists(out):
                    rc_bad = p.returncode
                    continue
                s = json.load(open(out)); os.unlink(out)
                stats.append(s); viols += s["violations"]
                continue
            e = dict(env); e["LIBDIR"] = ld; e["LIBS"] = " ".join(names); e["SAN"] = san
            out = os.path.join(BUILD, "out-%s-%d.json" % (prop, os.getpid()))
            prog = [exe]
            if prop == "P02":
                e["PREDONLY"] = " ".join(build_predonly(VARIANTS[n][1]) for n in usable(["sse", "avx2fma", "avx512"]))
            if prop in ("P12", "P23", "P26"):
                e["CUSTOM"] = build_custom()
            if prop in PY:
                e["WORKER"] = exe; e["PYTHONPATH"] = H; e["PYTHONDONTWRITEBYTECODE"] = "1"; e["PYTHONWARNINGS"] = "ignore"; e["OMP_NUM_THREADS"] = "1"
                prog = [PYTHON, os.path.join(H, prop.lower() + ".py")]
            cmd = prog + ["--seed", str(a.seed), "--tier", a.tier, "--out", out, "--replay-dir", rd, "--scale", a.scale]
            if a.arm:
                cmd += ["--arm", a.arm]
            if a.replay:
                cmd = prog + ["--replay", a.replay]
                want = re.search(r"^mode (\w+)", open(a.replay).read(), re.M)
                if (want.group(1) if want else "") != san:
                    continue
            p = subprocess.run(cmd, env=e)
            shutil.rmtree(ld, ignore_errors=True)
            if a.replay:
                return p.returncode
            if p.returncode not in (0, 1) or not os.path.exists(out):
                rc_bad = p.returncode
                continue
            s = json.load(open(out)); os.unlink(out)
            stats.append(s)
            viols += s["violations"]
            if san:
                for v in s["violations"]:
                    open(v["replay"], "a").write("mode %s\n" % san)
    except BuildError as e:
        print("BUILD FAILED", e)
        return 2
    m = merge(stats)
    cov = {"evaluations": m["evaluations"], "distinct_nontrivial": m["distinct_nontrivial"], "rule": m["rule"], "samples": m["samples"][:12],
           "discarded": m["discarded"], "per_arm": m["arms"], "labels": m["labels"], "failures_not_confirmed": m["unconfirmed"]}
    cov.update({k: v for s in stats for k, v in s.get("extra", {}).items()})
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: " + k[len("finding: "):])
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": "fault_enumeration" if prop == "P16" else "exploration",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for v in viols:
        print("violated: %s [%s]" % (v["msg"].split("\n")[0][:600], v.get("case", "")[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if viols:
        return 1
    if rc_bad is not None:
        print("the harness ended with", rc_bad)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
