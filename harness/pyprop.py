"""pyprop - property-based testing with Hypothesis against a worker process which executes library calls.
A property module defines ARMS = [Arm(...)] and RULE and calls main()."""
import warnings
warnings.simplefilter('ignore')
import ctypes, errno, os, sys, json, time, hashlib, subprocess, select, argparse, shutil, tempfile, traceback, signal
import hypothesis
from hypothesis import given, settings, seed as hseed, Phase, HealthCheck, strategies as st
import hypothesis.internal.conjecture.engine as _engine
_engine.MAX_SHRINKING_SECONDS = 40
_libc = ctypes.CDLL(None)
HANG, HANG_AGAIN = 30, 6        # a call may take so many seconds; and so many while a case which hung is made smaller


class Violation(Exception):
    pass


def check(cond, fmt, *a):
    if not cond:
        raise Violation(fmt % a if a else fmt)


def hx(s):
    b = s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s
    return b.hex() if b else "-"


def unhx(h):
    return b"" if h == "-" else bytes.fromhex(h)


class Worker:
    def __init__(self, name, dirname, timeout=HANG):
        self.name, self.dir, self.timeout, self.p = name, dirname, timeout, None

    def start(self):
        env = dict(os.environ)
        env["LIBS"] = self.name
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()

        def pre():
            os.setpgid(0, 0)
            _libc.prctl(1, signal.SIGKILL, 0, 0, 0)        # a call which hangs ends with its driver
            os.dup2(r1, 100); os.dup2(w2, 101)
            os.dup2(100, 3); os.dup2(101, 4)
            os.closerange(5, 200)
        self.err = open(os.path.join(self.dir, "worker.err"), "w+b")
        self.p = subprocess.Popen([os.environ["WORKER"]], cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, close_fds=False, preexec_fn=pre, env=env)
        os.close(r1); os.close(w2)
        self.w, self.r, self.buf = w1, r2, b""

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.kill(); self.p.wait(); os.close(self.w); os.close(self.r); self.err.close(); self.p = None

    def log(self):
        self.err.flush()
        return open(os.path.join(self.dir, "worker.err"), "rb").read().decode("utf-8", "replace")

    def trim(self):
        """forgets what was written to standard error"""
        self.err.seek(0); self.err.truncate()

    def cmd(self, *words):
        """sends a command, returns the words of the answer"""
        if not self.p:
            self.start()
        line = " ".join(str(w) for w in words) + "\n"
        try:
            os.write(self.w, line.encode())
        except OSError:
            pass
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                t, self.timeout = self.timeout, min(self.timeout, HANG_AGAIN)
                raise Violation("the call %s did not end within %d s" % (words[0], t))
            rs, _, _ = select.select([self.r], [], [], left)
            if not rs:
                continue
            b = os.read(self.r, 1 << 20)
            if not b:
                self.p.wait()
                rc = self.p.returncode
                log = self.log()
                self.stop()
                i = log.find("ERROR: AddressSanitizer")
                if i < 0:
                    i = log.find("runtime error:")
                raise Violation("the process ended (%s) during the call %s: %s" % (rc, words[0], log[max(0, i - 80):i + 1500] if i >= 0 else log[-600:]))
            self.buf += b
        ans, self.buf = self.buf.split(b"\n", 1)
        a = ans.decode().split(" ")
        if a[0] == "bad":
            raise Violation("%s: %s" % (words[0], ans.decode()))
        return a

    def live(self):
        return tuple(int(x) for x in self.cmd("live")[1:3])


class Ctx:
    def __init__(self, worker, d):
        self.w, self.dir, self.labels, self.is_nontrivial = worker, d, [], False
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)
        return name

    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def label(self, s):
        self.labels.append(s)

    def nontrivial(self):
        self.is_nontrivial = True

    def fresh(self):
        """an empty directory"""
        for e in os.listdir(self.dir):
            p = os.path.join(self.dir, e)
            if e.startswith("worker."):
                continue
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)


class Arm:
    def __init__(self, name, strategy, run, quick, thorough, workers=8):
        self.name, self.strategy, self.run, self.quick, self.thorough, self.workers = name, strategy, run, quick, thorough, workers


def run_case(arm, ctx, case):
    ctx.fresh()
    ctx.labels, ctx.is_nontrivial = [], False
    try:
        arm.run(ctx, case)
        # everything has to be given back; what grows once may be a cache
        if not ctx.w.p:
            return
    except Violation:
        ctx.w.stop()
        raise
    except Exception as e:      # what the library left is not what can be read: a file is missing, a name is no text
        ctx.w.stop()
        if isinstance(e, (MemoryError, hypothesis.errors.HypothesisException)) or isinstance(e, OSError) and e.errno not in (errno.ENOENT, errno.ENOTDIR, errno.EISDIR, errno.EEXIST):
            raise
        raise Violation("what it left cannot be read: %s: %s (%s)" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1])) from None
    except BaseException:
        ctx.w.stop()
        raise
    if os.fstat(ctx.w.err.fileno()).st_size > 1 << 20:
        ctx.w.trim()


def leakcheck(ctx, f):
    """f() must leave as much memory and as many files in use as before; caches may be filled the first times"""
    for k in range(4):
        a = ctx.w.live()
        f()
        b = ctx.w.live()
        if a == b:
            return
    raise Violation("%d bytes and %d file descriptors stay in use after everything was freed" % (b[0] - a[0], b[1] - a[1]))


def fork_worker(i, arm, variants, n, seed, outp, scratch):
    d = os.path.join(scratch, "w%s%d" % (arm.name, i))
    os.makedirs(d, exist_ok=True)
    ctx = Ctx(Worker(variants[i % len(variants)], d), d)
    res = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "violation": None, "invalid": 0}
    distinct = set()
    last = {}

    def body(case):
        res["evaluations"] += 1
        last["case"] = case
        try:
            run_case(arm, ctx, case)
        except Violation as e:
            last["msg"] = str(e)
            last["fail"] = case
            last.setdefault("first", case)
            raise
        except (hypothesis.errors.HypothesisException, hypothesis.errors.StopTest):
            res["invalid"] += 1
            raise
        for l in ctx.labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if ctx.is_nontrivial:
            h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            if h not in distinct:
                distinct.add(h)
                if len(res["samples"]) < 3 and len(distinct) % 37 == 5:
                    res["samples"].append(arm.name + ": " + json.dumps(case)[:300])

    f = settings(max_examples=n, deadline=None, database=None, phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                 report_multiple_bugs=False, print_blob=False)(given(arm.strategy)(body))
    f = hseed(int(hashlib.sha256(("%d %s %d" % (seed, arm.name, i)).encode()).hexdigest()[:12], 16))(f)
    try:
        f()
    except Violation as e:
        res["violation"] = {"case": last["fail"], "msg": last["msg"], "first": last["first"]}
    except hypothesis.errors.Flaky:
        res["violation"] = {"case": last.get("fail"), "msg": last.get("msg", "flaky"), "first": last.get("first")}
    except Exception:
        res["error"] = traceback.format_exc()
    ctx.w.stop()
    res["nontrivial"] = sorted(distinct)
    json.dump(res, open(outp, "w"))


def main(prop, arms, rule):
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--replay-dir", default=".")
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--arm")
    ap.add_argument("--replay")
    a = ap.parse_args()
    scratch = os.environ["SCRATCH"]
    variants = os.environ["LIBS"].split()
    if a.replay:
        r = json.loads(open(a.replay).read().split("\nmode")[0])
        arm = [x for x in arms if x.name == r["arm"]][0]
        d = os.path.join(scratch, "replay"); os.makedirs(d, exist_ok=True)
        ctx = Ctx(Worker(r.get("variant", variants[0]), d), d)
        try:
            run_case(arm, ctx, r["case"])
            print("replay of %s: passes" % arm.name)
            rc = 0
        except Violation as e:
            print("replay of %s: FAILS %s\n%s" % (arm.name, e, json.dumps(r["case"])))
            rc = 1
        ctx.w.stop()
        return rc
    total = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "labels": {}, "arms": {}, "samples": [], "rule": rule, "unconfirmed": 0, "violations": []}
    begin = time.time()
    for arm in arms:
        if a.arm and arm.name != a.arm:
            continue
        t0 = time.time()
        if total["violations"] and t0 - begin > 240:
            print("[%s] arm %-20s left out: there is a violation already" % (prop, arm.name))
            continue
        nproc = arm.workers
        n = int((arm.quick if a.tier == "quick" else arm.thorough) * a.scale)
        pids = {}
        for i in range(nproc):
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    fork_worker(i, arm, variants, max(1, n // nproc), a.seed, os.path.join(scratch, "res%d.json" % i), scratch)
                except BaseException:
                    traceback.print_exc(); code = 3
                os._exit(code)
            pids[pid] = i
        ok = True
        for pid in list(pids):
            _, st_ = os.waitpid(pid, 0)
            if st_ != 0:
                ok = False
        if not ok:
            return 3
        seen = set(); best = None; ev = 0
        for i in range(nproc):
            r = json.load(open(os.path.join(scratch, "res%d.json" % i)))
            if r.get("error"):
                print(r["error"])
                return 3
            ev += r["evaluations"]; seen.update(r["nontrivial"]); total["discarded"] += r["invalid"]
            for k, v in r["labels"].items():
                total["labels"][k] = total["labels"].get(k, 0) + v
            total["samples"] += r["samples"][:1]
            v = r["violation"]
            if v:
                v["variant"] = variants[i % len(variants)]
                if best is None or len(json.dumps(v["case"])) < len(json.dumps(best["case"])):
                    best = v
        total["evaluations"] += ev; total["distinct_nontrivial"] += len(seen); total["arms"][arm.name] = ev
        print("[%s] arm %-20s %8d cases %6.1f s" % (prop, arm.name, ev, time.time() - t0)); sys.stdout.flush()
        if best:
            # confirm in a fresh worker
            d = os.path.join(scratch, "confirm"); shutil.rmtree(d, True); os.makedirs(d)
            fails = 0
            for case in [best["case"]] * 3 + [best["first"]] * 2:        # the case as it was found when the smaller one passes
                ctx = Ctx(Worker(best["variant"], d), d)
                try:
                    run_case(arm, ctx, case)
                except Violation as e:
                    fails += 1; best["msg"] = str(e); best["case"] = case
                ctx.w.stop()
                if fails:
                    break
            if fails == 0:
                total["unconfirmed"] += 1
                print("  a failure could not be confirmed:", best["msg"][:300], json.dumps(best["case"])[:500])
                continue
            rp = os.path.join(a.replay_dir, "%s-%s-%s.replay" % (prop, arm.name, hashlib.sha256(json.dumps(best["case"]).encode()).hexdigest()[:8]))
            open(rp, "w").write(json.dumps({"prop": prop, "arm": arm.name, "variant": best["variant"], "case": best["case"], "msg": best["msg"]}) + "\n")
            total["violations"].append({"arm": arm.name, "msg": best["msg"], "case": json.dumps(best["case"]), "replay": rp})
    json.dump(total, open(a.out, "w"))
    return 1 if total["violations"] else 0
