"""fuzz - runs the libFuzzer binary on everything that reads files (P13: models, P15: arrays and archives)"""
import os, sys, io, json, re, struct, subprocess, argparse, hashlib, time, zipfile, random
import numpy as np
MODES = {"P13": ["model", "model", "model", "modelzip"], "P15": ["npy", "npy", "npz", "zip"]}
RULE = "coverage-guided fuzzing (libFuzzer, ASan+UBSan) of the file readers from valid seeds: no crash, hang, leak or unusable result; whatever is loaded is used, saved and loaded again with equal contents; non-trivial: inputs that load"
DICT = ["'descr': '", "'fortran_order': ", "'shape': (", "True, ", "False, ", "), }", "<f4", "|S7", ">f4", "<i8", "|b1", "2, 3", "(4,)", "()", "(0,)", "4294967297", "9223372036854775808", "2147483648", "-1", "\\x93NUMPY\\x01\\x00", "v\\x00", "relu", "sigmoid", "softmax", "linear", "tanh", "PK\\x01\\x02", "PK\\x03\\x04", "PK\\x05\\x06", "f@./x.so", "@", "\\xff\\xff", "\\x80\\x00"]


def npy(a):
    b = io.BytesIO(); np.save(b, a); return b.getvalue()


def networks(rnd):
    for sizes, acts in (((1, 1), ["linear"]), ((2, 3, 1), ["relu", "sigmoid"]), ((4, 8, 8, 2), ["tanh", "softplus", "softmax"]), ((3, 17), ["exponential"]), ((2, 2, 2, 2, 2, 2), ["softsign", "hard_sigmoid", "relu", "tanh", "linear"]), ((5, 4), ["f@./libx.so"])):
        e = []
        for i, o in zip(sizes, sizes[1:]):
            e += [np.array([rnd.uniform(-1, 1) for _ in range(i * o)], "<f4").reshape(i, o), np.array([rnd.uniform(-1, 1) for _ in range(o)], "<f4")]
        yield e + [np.array([a.encode() for a in acts])]


def seeds(mode, rnd):
    arrs = [np.arange(6, dtype=t).reshape(s) for t, s in (("<f4", (2, 3)), (">f8", (6,)), ("<i8", (1, 2, 3, 1)), ("|u1", (6, 1)), ("<c16", (3, 2)))] + [np.array([b"abc", b"d"]), np.zeros((0, 3), "<f4"), np.array(3.5), np.asfortranarray(np.arange(12.0).reshape(3, 4)), np.zeros((1,) * 8, "?"), np.zeros(300, "<f4")]
    def piece(l): return b"".join(struct.pack("<H", len(x)) + x for x in l)
    def pack(l, m):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", m) as z:
            for i, x in enumerate(l):
                z.writestr("arr_%d.npy" % i, x)
        return b.getvalue()
    if mode == "npy":
        return [npy(a) for a in arrs]
    if mode in ("npz", "zip"):
        ls = [[npy(a) for a in arrs], [npy(arrs[0])], [npy(arrs[5]), npy(arrs[6])], []]
    else:
        ls = [[npy(a) for a in n] for n in networks(rnd)]
        ls += [[x[-1]] + x[:-1] for x in ls[1:3]]
    if mode in ("npz", "model"):
        return [piece(l) for l in ls]
    return [pack(l, m) for l in ls for m in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2)]


OPTS = ["-close_fd_mask=3", "-timeout=60", "-rss_limit_mb=6000", "-malloc_limit_mb=1000000", "-detect_leaks=0", "-print_final_stats=1"]


def env(d, mode):
    e = dict(os.environ); e["FUZZ_DIR"] = d; e["FUZZ_MODE"] = mode
    return e


def rerun(exe, d, mode, data):
    """(exit code, complaint)"""
    f = os.path.join(d, "again"); open(f, "wb").write(data)
    c = os.path.join(d, "complaint")
    if os.path.exists(c):
        os.unlink(c)
    p = subprocess.run([exe] + [o for o in OPTS if "close_fd" not in o] + [f], env=env(d, mode), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
    out = p.stdout.decode("utf-8", "replace")
    msg = open(c).read().strip() if os.path.exists(c) else ""
    if not msg:
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|ERROR: libFuzzer[^\n]*)", out)
        fr = re.search(r" in ([\w]+) /repo/([^\n]*)", out)
        msg = (m.group(1) if m else out[-300:]) + (" in %s (%s)" % fr.groups() if fr else "")
    return p.returncode, msg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("--replay-dir", default="."); ap.add_argument("--scale", type=float, default=1); ap.add_argument("--arm"); ap.add_argument("--replay")
    a = ap.parse_args()
    exe, scratch = os.environ["FUZZER"], os.environ["SCRATCH"]
    if a.replay:
        r = json.loads(open(a.replay).read().split("\nmode")[0])
        d = os.path.join(scratch, "replay"); os.makedirs(d)
        rc, msg = rerun(exe, d, r["fuzz"], bytes.fromhex(r["data"]))
        print("replay of %s: %s" % (r["fuzz"], "passes" if rc == 0 else "FAILS " + msg))
        return 0 if rc == 0 else 1
    total = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "labels": {}, "arms": {}, "samples": [], "rule": RULE, "unconfirmed": 0, "violations": []}
    n = int((30000 if a.tier == "quick" else 3000000) * a.scale)
    limit = 25 if a.tier == "quick" else 900
    t0, ps = time.time(), []
    for i in range(8):
        mode = MODES[a.prop][i % 4]
        d = os.path.join(scratch, "fz%d" % i); os.makedirs(d + "/corpus")
        rnd = random.Random(a.seed * 100 + i)
        for k, s in enumerate(seeds(mode, rnd)):
            open(d + "/corpus/%d" % k, "wb").write(s)
        open(d + "/dict", "w").write("".join('"%s"\n' % x for x in DICT))
        ps.append((mode, d, subprocess.Popen([exe] + OPTS + ["-seed=%d" % (a.seed * 1000 + i + 1), "-runs=%d" % n, "-max_total_time=%d" % limit, "-max_len=%d" % (4096 if mode == "npy" else 8192), "-dict=dict", "-artifact_prefix=%s/crash-" % d, "corpus"], env=env(d, mode), cwd=d, stdout=subprocess.DEVNULL, stderr=open(d + "/log", "wb"))))
    for mode, d, p in ps:
        rc = p.wait()
        log = open(d + "/log", "rb").read().decode("utf-8", "replace")
        m = re.search(r"number_of_executed_units: (\d+)", log)
        k = int(m.group(1)) if m else 0
        total["evaluations"] += k; total["arms"]["fuzz " + mode] = total["arms"].get("fuzz " + mode, 0) + k
        cov = re.findall(r"cov: (\d+)", log)
        if cov:
            total["labels"]["fuzz %s: edges covered" % mode] = max(int(cov[-1]), total["labels"].get("fuzz %s: edges covered" % mode, 0))
        if os.path.exists(d + "/counts"):
            g = int(open(d + "/counts").read().split()[1]); total["distinct_nontrivial"] += g
            total["labels"]["fuzz %s: loaded" % mode] = total["labels"].get("fuzz %s: loaded" % mode, 0) + g
        if rc == 0:
            continue
        fs = [f for f in os.listdir(d) if f.startswith("crash-")]
        if not fs:
            print(log[-3000:])
            return 3
        data = open(os.path.join(d, fs[0]), "rb").read()
        rc, msg = rerun(exe, d, mode, data)
        if rc == 0:
            total["unconfirmed"] += 1
            print("  a failure could not be confirmed:", log[-500:])
            continue
        # shrink: libFuzzer's own minimiser for a while
        f = os.path.join(d, "min"); open(f, "wb").write(data)
        subprocess.run([exe] + OPTS + ["-minimize_crash=1", "-max_total_time=20", "-exact_artifact_path=%s/small" % d, f], env=env(d, mode), cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(d + "/small"):
            small = open(d + "/small", "rb").read()
            rc2, msg2 = rerun(exe, d, mode, small)
            if rc2:
                data, msg = small, msg2
        rp = os.path.join(a.replay_dir, "%s-fuzz-%s.replay" % (a.prop, hashlib.sha256(data).hexdigest()[:8]))
        open(rp, "w").write(json.dumps({"prop": a.prop, "fuzz": mode, "data": data.hex(), "msg": msg}) + "\n")
        total["violations"].append({"arm": "fuzz", "msg": "%s: %s" % (mode, msg), "case": data[:100].hex(), "replay": rp})
    for mode, d, p in ps[:2]:
        c = sorted(os.listdir(d + "/corpus"))[-1]
        total["samples"].append("fuzz %s: %r" % (mode, open(os.path.join(d, "corpus", c), "rb").read()[:120]))
    print("[%s] fuzzing %26d cases %6.1f s" % (a.prop, total["evaluations"], time.time() - t0))
    json.dump(total, open(a.out, "w"))
    return 1 if total["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
