// pbt.hpp - a small property-based testing engine.
//
// Every random decision of a property is drawn from a choice sequence.  The sequence is recorded in
// shared memory, so a case that crashes, aborts or hangs is just a failing case: it can be shrunk
// (by shrinking the sequence) and replayed (by replaying the sequence) like any other.
//   * case i of arm A under seed S is a pure function of (S, A, i);
//   * each case runs in a forked child, so no state leaks between cases;
//   * failures are shrunk and then have to reproduce before they are reported.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <chrono>

namespace pbt {

static const size_t MAXC = 1u << 16;

struct Shared {
    uint32_t n;                 // choices drawn
    uint32_t status;            // see below
    uint32_t nontrivial;
    uint32_t pad;
    char msg[8192];
    char note[8192];
    char labels[4096];
    uint64_t c[MAXC];
};
enum { ST_RUN = 0, ST_OK = 1, ST_FAIL = 2, ST_DISCARD = 3 };

static inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
// A generator for bulk data, seeded from a drawn value.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed ^ 0x5851f42d4c957f2dull)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }          // [0,1)
    double sym() { return 2.0 * unit() - 1.0; }
    double normal() {
        double u = unit(), v = unit();
        return std::sqrt(-2.0 * std::log(1.0 - u)) * std::cos(6.283185307179586 * v);
    }
};

struct Fail {};
struct Discard {};

struct Case {
    Shared *sh;
    const std::vector<uint64_t> *rep;   // replayed sequence or nullptr
    Rng rng;
    std::string tier;
    Case(Shared *s, const std::vector<uint64_t> *r, uint64_t seed) : sh(s), rep(r), rng(seed) {}

    // 0..max inclusive; 0 is the simplest choice
    uint64_t draw(uint64_t max) {
        uint64_t v;
        uint32_t i = sh->n;
        if (rep) v = i < rep->size() ? std::min((*rep)[i], max) : 0;
        else v = max == UINT64_MAX ? rng.next() : rng.next() % (max + 1);
        if (i < MAXC) { sh->c[i] = v; sh->n = i + 1; }
        else { discard(); }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t)(hi - lo)); }
    bool chance(int percent) { return (int) draw(99) >= 100 - percent; }   // 0 means no
    bool flip() { return draw(1); }
    // small values are likely, but every value up to max occurs
    uint64_t small(uint64_t max) {
        int bits = 0;
        while (bits < 63 && (max >> bits)) bits++;
        uint64_t b = draw(bits);
        uint64_t lim = b >= 63 ? max : std::min<uint64_t>(max, (1ull << b) - 1);
        return draw(lim);
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
    uint64_t seed64() { return draw(0xffffffffull); }

    void label(const char *fmt, ...) {
        char b[256];
        va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        size_t l = strlen(sh->labels);
        if (l + strlen(b) + 2 < sizeof sh->labels) { strcat(sh->labels, b); strcat(sh->labels, "\n"); }
    }
    void note(const char *fmt, ...) {
        size_t l = strlen(sh->note);
        va_list ap; va_start(ap, fmt); vsnprintf(sh->note + l, sizeof sh->note - l, fmt, ap); va_end(ap);
    }
    void nontrivial() { sh->nontrivial = 1; }
    [[noreturn]] void fail(const char *fmt, ...) {
        va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
        throw Fail{};
    }
    [[noreturn]] void discard() { throw Discard{}; }
};
#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

typedef std::function<void(Case &)> Prop;
struct Arm { std::string name; Prop fn; long quick, thorough; int timeout_s = 60; int workers = 0; };

struct Stats {
    long evaluations = 0, discards = 0, nontrivial = 0, failures = 0;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct;
};

static volatile sig_atomic_t g_alarm;
static inline void on_alarm(int) { g_alarm = 1; }

struct Result { int kind; std::string msg; };   // kind: ST_*

struct Runner {
    Shared *sh;
    int outfd;
    std::string tier = "quick";
    pid_t child = 0;

    Runner() {
        sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        outfd = memfd_create("out", MFD_CLOEXEC);
    }
    long peak = 0;                                          // the most a case was seen to take, in MB
    static long memory_limit(const Arm &arm) { return std::max(3000, 24000 / (arm.workers ? arm.workers : 8)); }
    static long resident(pid_t pid) {
        char f[64], b[64] = ""; snprintf(f, sizeof f, "/proc/%d/statm", (int) pid);
        int fd = open(f, O_RDONLY | O_CLOEXEC); if (fd < 0) return 0;
        if (read(fd, b, sizeof b - 1) < 0) b[0] = 0;
        close(fd);
        long all = 0, res = 0, shared = 0; if (sscanf(b, "%ld %ld %ld", &all, &res, &shared) != 3) return 0;
        return (res - shared) / (1048576 / sysconf(_SC_PAGESIZE));      // data that repeats is mapped many times from one file, and counts as shared
    }
    // run one case in a child
    Result run(const Arm &arm, uint64_t seed, const std::vector<uint64_t> *rep) {
        sh->n = 0; sh->status = ST_RUN; sh->nontrivial = 0;
        sh->msg[0] = sh->note[0] = sh->labels[0] = 0;
        if (ftruncate(outfd, 0)) {}
        lseek(outfd, 0, SEEK_SET);
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(3); }
        if (pid == 0) {
            dup2(outfd, 1); dup2(outfd, 2);
            struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
            prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0);
            Case c(sh, rep, seed);
            c.tier = tier;
            try { arm.fn(c); sh->status = ST_OK; }
            catch (Fail &) { sh->status = ST_FAIL; }
            catch (Discard &) { sh->status = ST_DISCARD; }
            catch (std::exception &e) { snprintf(sh->msg, sizeof sh->msg, "harness exception %s", e.what()); sh->status = ST_DISCARD; }
            fflush(stdout); fflush(stderr);
            _exit(0);
        }
        child = pid;
        g_alarm = 0;
        struct itimerval it = {{0, 200000}, {0, 200000}};        // look at the case five times a second
        setitimer(ITIMER_REAL, &it, nullptr);
        int st = 0; bool timeout = false; long too_big = 0;
        auto t0 = std::chrono::steady_clock::now();
        while (waitpid(pid, &st, 0) < 0) {
            if (errno != EINTR) break;
            if (!g_alarm) continue;
            g_alarm = 0;
            long mb = resident(pid); peak = std::max(peak, mb);
            if (std::chrono::steady_clock::now() - t0 >= std::chrono::seconds(arm.timeout_s)) timeout = true;
            else if (mb > memory_limit(arm)) too_big = mb;
            else continue;
            kill(-pid, SIGKILL); kill(pid, SIGKILL);
        }
        struct itimerval off = {{0, 0}, {0, 0}};
        setitimer(ITIMER_REAL, &off, nullptr);
        kill(-pid, SIGKILL);
        Result r;
        if (timeout) { r.kind = ST_FAIL; r.msg = "the case did not end within " + std::to_string(arm.timeout_s) + " s"; return r; }
        if (too_big) { r.kind = ST_FAIL; r.msg = "the case took more than " + std::to_string(memory_limit(arm)) + " MB of memory" + tail(); return r; }
        if (WIFSIGNALED(st)) { r.kind = ST_FAIL; r.msg = std::string("killed by signal ") + strsignal(WTERMSIG(st)) + tail(); }
        else if (WEXITSTATUS(st) != 0) { r.kind = ST_FAIL; r.msg = "exited with status " + std::to_string(WEXITSTATUS(st)) + tail(); }
        else if (sh->status == ST_RUN) { r.kind = ST_FAIL; r.msg = "the process ended inside a library call (exit 0)" + tail(); }
        else { r.kind = sh->status; r.msg = sh->msg; }
        return r;
    }
    std::string tail() {
        std::string s; char b[65536];
        ssize_t k = pread(outfd, b, sizeof b - 1, 0);
        if (k > 0) { s.assign(b, k); }
        size_t p = s.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
        if (p == std::string::npos) p = s.find("runtime error:");
        if (p != std::string::npos) s = s.substr(p > 60 ? p - 60 : 0, 2500); else if (s.size() > 600) s = s.substr(s.size() - 600);
        return s.empty() ? s : "; output: " + s;
    }
    std::vector<uint64_t> choices() { return std::vector<uint64_t>(sh->c, sh->c + sh->n); }
};

static inline uint64_t hash_choices(const Shared *sh) {
    uint64_t h = 1469598103934665603ull;
    for (uint32_t i = 0; i < sh->n; i++) h = mix(h ^ sh->c[i]);
    return h;
}

static inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static inline std::vector<uint64_t> shrink(Runner &R, const Arm &arm, std::vector<uint64_t> best, std::string &msg, double budget_s, long &evals) {
    double t0 = now();
    auto attempt = [&](const std::vector<uint64_t> &cand) -> bool {
        if (now() - t0 > budget_s) return false;
        evals++;
        Result r = R.run(arm, 0, &cand);
        if (r.kind != ST_FAIL) return false;
        std::vector<uint64_t> used = R.choices();
        // accept only if simpler
        if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) return false;
        best = used; msg = r.msg;
        return true;
    };
    bool improved = true;
    while (improved && now() - t0 < budget_s) {
        improved = false;
        for (size_t k = 64; k >= 1; k /= 2)
            for (size_t i = best.size(); i-- > 0;) {
                if (i + k > best.size()) continue;
                std::vector<uint64_t> cand = best;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand)) { improved = true; if (i > best.size()) i = best.size(); }
            }
        for (size_t k = 8; k >= 1; k /= 2)
            for (size_t i = 0; i + k <= best.size(); i++) {
                std::vector<uint64_t> cand = best; bool nz = false;
                for (size_t j = 0; j < k; j++) { nz |= cand[i + j] != 0; cand[i + j] = 0; }
                if (nz && attempt(cand)) improved = true;
            }
        for (size_t i = 0; i < best.size(); i++) {
            if (!best[i]) continue;
            uint64_t lo = 0, hi = best[i];        // hi fails
            while (lo + 1 < hi && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> cand = best; cand[i] = mid;
                if (attempt(cand)) { improved = true; if (i >= best.size()) break; hi = best[i]; } else lo = mid;
                if (now() - t0 > budget_s) break;
            }
        }
    }
    return best;
}

static inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

static inline uint64_t arm_seed(const std::string &prop, const std::string &arm, uint64_t seed) {
    uint64_t h = mix(seed);
    for (char ch : prop + "/" + arm) h = mix(h ^ (unsigned char) ch);
    return h;
}

// Run one arm over all workers; returns lowest failing index or -1.
static inline long run_arm(const std::string &prop, const Arm &arm, uint64_t seed, long cases, const std::string &tier,
                           int nworkers, Stats &S, std::vector<uint64_t> &fail_choices, std::string &fail_msg, const std::string &tmp) {
    if (arm.workers) nworkers = arm.workers;
    long *minfail = (long *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *minfail = cases;
    uint64_t base = arm_seed(prop, arm.name, seed);
    std::vector<pid_t> pids;
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < nworkers; w++) {
        pid_t p = fork();
        if (p == 0) {
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
            Runner R; R.tier = tier;
            Stats L; std::vector<uint64_t> fc; std::string fm; long fi = -1;
            for (long i = w; i < cases; i += nworkers) {
                if (i > __atomic_load_n(minfail, __ATOMIC_RELAXED)) break;
                Result r = R.run(arm, mix(base ^ mix((uint64_t) i)), nullptr);
                L.evaluations++;
                if (r.kind == ST_DISCARD) { L.discards++; if (!r.msg.empty()) L.labels["DISCARD " + r.msg]++; continue; }
                char *save = nullptr;
                std::string lb = R.sh->labels;
                for (char *t = strtok_r(&lb[0], "\n", &save); t; t = strtok_r(nullptr, "\n", &save)) L.labels[t]++;
                if (R.sh->nontrivial) {
                    L.nontrivial++;
                    L.distinct.insert(hash_choices(R.sh));
                    if (L.samples.size() < 2 && R.sh->note[0]) L.samples.push_back(R.sh->note);
                }
                if (r.kind == ST_FAIL) {
                    L.failures++; fc = R.choices(); fm = r.msg; fi = i;
                    long cur = __atomic_load_n(minfail, __ATOMIC_RELAXED);
                    while (i < cur && !__atomic_compare_exchange_n(minfail, &cur, i, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
                    break;
                }
            }
            if (getenv("VERIF_RSS")) fprintf(stderr, "PEAK %s %s %ld MB of %ld\n", prop.c_str(), arm.name.c_str(), R.peak, Runner::memory_limit(arm));
            FILE *f = fopen((tmp + "/w" + std::to_string(w)).c_str(), "wb");
            fprintf(f, "%ld %ld %ld %ld %ld\n", L.evaluations, L.discards, L.nontrivial, L.failures, fi);
            auto ws = [&](const std::string &s) { fprintf(f, "%zu ", s.size()); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); };
            fprintf(f, "%zu\n", L.labels.size());
            for (auto &kv : L.labels) { fprintf(f, "%ld ", kv.second); ws(kv.first); }
            fprintf(f, "%zu\n", L.samples.size());
            for (auto &s : L.samples) ws(s);
            fprintf(f, "%zu\n", L.distinct.size());
            for (uint64_t h : L.distinct) fprintf(f, "%llx\n", (unsigned long long) h);
            ws(fm);
            fprintf(f, "%zu\n", fc.size());
            for (uint64_t v : fc) fprintf(f, "%llu\n", (unsigned long long) v);
            fclose(f);
            _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    long best = -1;
    for (int w = 0; w < nworkers; w++) {
        std::string fn = tmp + "/w" + std::to_string(w);
        FILE *f = fopen(fn.c_str(), "rb");
        if (!f) { fprintf(stderr, "worker %d of arm %s died\n", w, arm.name.c_str()); exit(3); }
        long e, d, nt, fl, fi; size_t n;
        auto rs = [&]() { size_t k; if (fscanf(f, "%zu", &k) != 1) exit(3); fgetc(f); std::string s(k, 0); if (fread(&s[0], 1, k, f) != k) exit(3); return s; };
        if (fscanf(f, "%ld %ld %ld %ld %ld", &e, &d, &nt, &fl, &fi) != 5) exit(3);
        S.evaluations += e; S.discards += d; S.nontrivial += nt; S.failures += fl;
        if (fscanf(f, "%zu", &n) != 1) exit(3);
        while (n--) { long k; if (fscanf(f, "%ld", &k) != 1) exit(3); std::string s = rs(); S.labels[arm.name + ": " + s] += k; }
        if (fscanf(f, "%zu", &n) != 1) exit(3);
        while (n--) { std::string s = rs(); if (w < 2) S.samples.push_back(arm.name + ": " + s); }
        if (fscanf(f, "%zu", &n) != 1) exit(3);
        while (n--) { unsigned long long h; if (fscanf(f, "%llx", &h) != 1) exit(3); S.distinct.insert(mix(h ^ base)); }
        std::string fm = rs();
        if (fscanf(f, "%zu", &n) != 1) exit(3);
        std::vector<uint64_t> fc;
        while (n--) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) exit(3); fc.push_back(v); }
        fclose(f); unlink(fn.c_str());
        if (fi >= 0 && (best < 0 || fi < best)) { best = fi; fail_choices = fc; fail_msg = fm; }
    }
    munmap(minfail, 4096);
    return best;
}

// The driver.  Exit codes: 0 held, 1 violation (details in the output file), 3 harness error.
static inline int main_(const std::string &prop, std::vector<Arm> arms, const std::string &rule, int argc, char **argv) {
    uint64_t seed = 1; std::string tier = "quick", out, replay, replay_dir = ".", only; double scale = 1.0; int nworkers = 8;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--tier") tier = v;
        else if (a == "--out") out = v;
        else if (a == "--replay") replay = v;
        else if (a == "--replay-dir") replay_dir = v;
        else if (a == "--arm") only = v;
        else if (a == "--scale") scale = atof(v.c_str());
        else if (a == "--workers") nworkers = atoi(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r"); char line[65536]; std::string arm; std::vector<uint64_t> ch;
        if (!f) { perror(replay.c_str()); return 3; }
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "arm ", 4)) { arm = line + 4; arm.erase(arm.find_last_not_of("\r\n") + 1); }
            else if (!strncmp(line, "choices", 7)) { char *p = line + 7, *e; for (;;) { unsigned long long v = strtoull(p, &e, 10); if (e == p) break; ch.push_back(v); p = e; }
                while (fgets(line, sizeof line, f)) { p = line; for (;;) { unsigned long long v = strtoull(p, &e, 10); if (e == p) break; ch.push_back(v); p = e; } } }
        }
        fclose(f);
        for (auto &a : arms) if (a.name == arm) {
            Runner R; R.tier = tier;
            Result r = R.run(a, 0, &ch);
            { std::string o = R.tail(); if (!o.empty()) printf("%s\n", o.c_str()); }
            printf("replay of %s: %s %s\n%s\n", arm.c_str(), r.kind == ST_FAIL ? "FAILS" : r.kind == ST_OK ? "passes" : "discarded", r.msg.c_str(), R.sh->note);
            return r.kind == ST_FAIL ? 1 : 0;
        }
        fprintf(stderr, "no such arm: %s\n", arm.c_str());
        return 3;
    }
    char tmpl[] = "/tmp/pbtXXXXXX"; std::string tmp = mkdtemp(tmpl);
    double t0 = now();
    Stats S; struct Viol { std::string arm, msg, path, note; }; std::vector<Viol> viols; long unconfirmed = 0, shrinks = 0;
    std::map<std::string, long> per_arm;
    for (auto &arm : arms) {
        if (!only.empty() && arm.name != only) continue;
        long cases = (long) ((tier == "thorough" ? arm.thorough : arm.quick) * scale);
        if (cases < 1) continue;
        if (!viols.empty() && now() - t0 > 240) { fprintf(stderr, "[%s] arm %s left out: there is a violation already\n", prop.c_str(), arm.name.c_str()); continue; }
        double ta = now();
        long ev0 = S.evaluations;
        std::vector<uint64_t> fc; std::string fm;
        long fi = run_arm(prop, arm, seed, cases, tier, nworkers, S, fc, fm, tmp);
        per_arm[arm.name] = S.evaluations - ev0;
        fprintf(stderr, "[%s] arm %-24s %7ld cases %6.1f s%s\n", prop.c_str(), arm.name.c_str(), S.evaluations - ev0, now() - ta, fi >= 0 ? "  FAILED" : "");
        if (fi >= 0) {
            Runner R; R.tier = tier;
            // confirm before shrinking; nondeterministic failures (races) have to show up repeatedly
            int seen = 0, tries = 0; bool hang = fm.find("did not end within") != std::string::npos;
            int want = hang ? 1 : 3, maxtries = hang ? 2 : 60;
            while (seen < want && tries < maxtries) { tries++; Result r = R.run(arm, 0, &fc); if (r.kind == ST_FAIL) { seen++; fm = r.msg; } if (tries == 3 && seen == 3) break; }
            if (seen < std::min(want, 2)) { unconfirmed++; fprintf(stderr, "[%s] arm %s: case %ld failed once (%s) but not again (%d/%d): not reported\n", prop.c_str(), arm.name.c_str(), fi, fm.c_str(), seen, tries); continue; }
            bool flaky = seen < tries;
            std::vector<uint64_t> best = fc; std::string msg = fm;
            if (!hang && !flaky) {
                best = shrink(R, arm, fc, msg, tier == "thorough" ? 120 : 45, shrinks);
                int ok = 0; Result r;
                for (int k = 0; k < 3; k++) { r = R.run(arm, 0, &best); ok += r.kind == ST_FAIL; if (r.kind == ST_FAIL) msg = r.msg; }
                if (ok < 3) { best = fc; msg = fm; R.run(arm, 0, &best); }
            } else if (!hang) R.run(arm, 0, &best);
            uint64_t h = 0; for (uint64_t v : best) h = mix(h ^ v);
            char path[512]; snprintf(path, sizeof path, "%s/%s-%s-%08llx.replay", replay_dir.c_str(), prop.c_str(), arm.name.c_str(), (unsigned long long) (h & 0xffffffff));
            FILE *f = fopen(path, "w");
            if (!f) { perror(path); return 3; }
            fprintf(f, "# property %s: %s\n", prop.c_str(), msg.substr(0, msg.find('\n')).c_str());
            { std::string nn = R.sh->note; for (char &ch : nn) if (ch == '\n') ch = ' '; fprintf(f, "# case: %s\n", nn.c_str()); }
            fprintf(f, "arm %s\nchoices", arm.name.c_str());
            for (size_t i = 0; i < best.size(); i++) fprintf(f, "%s%llu", i % 64 == 63 ? "\n" : " ", (unsigned long long) best[i]);
            fprintf(f, "\n"); fclose(f);
            viols.push_back({arm.name, msg, path, R.sh->note});
        }
    }
    rmdir(tmp.c_str());
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 3; }
    fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"evaluations\":%ld,\"discarded\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,\"unconfirmed\":%ld,\"shrink_steps\":%ld,\"wall_s\":%.2f,\n",
            prop.c_str(), tier.c_str(), (unsigned long long) seed, S.evaluations, S.discards, S.nontrivial, S.distinct.size(), unconfirmed, shrinks, now() - t0);
    fprintf(f, "\"rule\":\"%s\",\n\"arms\":{", jesc(rule).c_str());
    bool first = true;
    for (auto &kv : per_arm) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
    fprintf(f, "},\n\"labels\":{"); first = true;
    for (auto &kv : S.labels) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
    fprintf(f, "},\n\"samples\":["); first = true;
    for (auto &s : S.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\n\"violations\":["); first = true;
    for (auto &v : viols) { fprintf(f, "%s{\"arm\":\"%s\",\"replay\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}", first ? "" : ",", jesc(v.arm).c_str(), jesc(v.path).c_str(), jesc(v.msg).c_str(), jesc(v.note).c_str()); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return viols.empty() ? 0 : 1;
}

// ---- guarded buffers -------------------------------------------------------------------------
// A buffer of n floats whose surroundings are watched: in flush mode it ends exactly at an unmapped
// page, so reading or writing beyond it faults; otherwise it is surrounded by canary bytes and
// starts at the wanted offset (in floats) from a 64-byte boundary.
struct Buf {
    char *map = nullptr; size_t maplen = 0; float *p = nullptr; size_t n = 0; size_t slack_lo = 0, slack_hi = 0;
    static const unsigned char CAN = 0xa5;
    Buf(size_t n_, int misalign, bool flush) : n(n_) {
        size_t bytes = n * 4, pg = 4096;
        size_t body = ((bytes + 512 + pg - 1) / pg + 1) * pg;
        maplen = body + 2 * pg;
        map = (char *) mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (map == MAP_FAILED) { perror("mmap"); _exit(3); }
        mprotect(map, pg, PROT_NONE); mprotect(map + pg + body, pg, PROT_NONE);
        char *lo = map + pg, *hi = map + pg + body, *start;
        if (flush) start = hi - bytes;
        else { start = hi - bytes - 128; start -= (uintptr_t) start % 64; start += 4 * (misalign & 15); }
        memset(lo, CAN, body);
        p = (float *) start; slack_lo = start - lo; slack_hi = hi - (start + bytes);
    }
    Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
    Buf(Buf &&o) noexcept { *this = std::move(o); }
    Buf &operator=(Buf &&o) noexcept { std::swap(map, o.map); std::swap(maplen, o.maplen); std::swap(p, o.p); std::swap(n, o.n); std::swap(slack_lo, o.slack_lo); std::swap(slack_hi, o.slack_hi); return *this; }
    ~Buf() { if (map) munmap(map, maplen); }
    void readonly() { mprotect(map + 4096, maplen - 8192, PROT_READ); }
    bool intact() const {
        const unsigned char *b = (const unsigned char *) p;
        for (size_t i = 1; i <= slack_lo; i++) if (b[-(ptrdiff_t) i] != CAN) return false;
        for (size_t i = 0; i < slack_hi; i++) if (b[n * 4 + i] != CAN) return false;
        return true;
    }
    float &operator[](size_t i) { return p[i]; }
};

} // namespace pbt
