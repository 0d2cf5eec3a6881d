// P22 - memory errors, undefined behaviour, leaks
#include "subject.hpp"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static const bool SAN = true;
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
#else
static const bool SAN = false;
static size_t live() { return 0; }
// every block of memory is filled with garbage, which must not show
#include <malloc.h>
static volatile unsigned char g_fill = 0; static volatile bool g_on = false;
static thread_local uint64_t g_state;
static void garbage(void *p, size_t n) {
    if (!g_on || !p) return;
    unsigned char f = g_fill; if (f < 2) { memset(p, f ? 0xff : 0, n); return; }
    if (f == 2) { uint32_t *w = (uint32_t *) p; for (size_t i = 0; i + 4 <= n; i += 4) *w++ = 0x3f800000u; return; }
    if (f == 3) { uint32_t *w = (uint32_t *) p; for (size_t i = 0; i + 4 <= n; i += 4) *w++ = 0xc2f6e979u; return; }
    memset(p, f, n);
}
extern "C" { void *__libc_memalign(size_t, size_t); void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_memalign(64, n); garbage(p, n); return p; }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = __libc_memalign(64, n); if (p) memset(p, 0, n); return p; }
void free(void *p) { if (p && g_on) garbage(p, malloc_usable_size(p)); __libc_free(p); }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return nullptr; } void *q = malloc(n); if (q) { size_t k = malloc_usable_size(p); memcpy(q, p, k < n ? k : n); free(p); } return q; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a < 64 ? 64 : a, n); garbage(p, n); return p; }
int posix_memalign(void **r, size_t a, size_t n) { void *p = __libc_memalign(a < 64 ? 64 : a, n); if (!p) return 12; garbage(p, n); *r = p; return 0; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); } }
#endif
static uint64_t g_rand = 1;
extern "C" time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
extern "C" int rand(void) { g_rand = g_rand * 6364136223846793005ull + 1442695040888963407ull; return (int) (g_rand >> 33) & RAND_MAX; }
extern "C" void srand(unsigned) {}
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static __attribute__((noinline)) void dirty(unsigned char f) { volatile char b[300000]; for (size_t i = 0; i < sizeof b; i += 1) b[i] = (char) f; }

struct World {      // several subjects and the order of their steps; each run starts from copies
    const Lib &L; std::vector<Subject> ss; std::vector<int> order; int threads;
    World(Case &c, int maxsize) : L(libs()[c.draw(libs().size() - 1)]) {
        int k = 1 + (int) c.draw(1), steps = 5 + (int) c.draw(55); threads = SAN && c.chance(30) ? 3 : 1;
        for (int i = 0; i < k; i++) ss.emplace_back(c, L, i, maxsize);
        Rng r(c.seed64()); for (int i = 0; i < steps; i++) order.push_back((int) r.below(k));
        c.note("%s %d threads, %d steps of", L.name.c_str(), threads, steps); for (auto &s : ss) c.note(" %s loss=%s", s.n.str().c_str(), s.loss.c_str());
        c.label("variant %s", L.name.c_str()); c.nontrivial();
    }
    void run(const char *dir, std::vector<std::string> &trace, int fill) {
        g_rand = 12345; L.sh_threads(threads);
        if (mkdir(dir, 0777) || chdir(dir)) _exit(3);
        std::vector<Subject *> w; for (auto &s : ss) w.push_back(new Subject(s));
        for (int i : order) { if (fill >= 0) dirty((unsigned char) fill); w[i]->step(); }
        for (Subject *s : w) { s->end(); trace.push_back(s->trace); delete s; }
        if (chdir("..")) _exit(3);
        nftw(dir, Scratch::rm, 16, FTW_DEPTH | FTW_PHYS);
    }
};
// 1: the sanitizers see every access; the same history again and again must not need more memory or files
static void histories(Case &c) {
    World w(c, c.chance(20) ? 150 : 40); Scratch scratch;
    size_t mem[6]; int fd[6];
    for (int k = 0; k < 5; k++) { { std::vector<std::string> t; w.run("run", t, -1); fflush(stdout); fflush(stderr); } mem[k] = live(); fd[k] = fds(); }
    CHECK(c, !(mem[2] > mem[1] && mem[3] > mem[2] && mem[4] > mem[3]), "%s: %zu bytes more are in use after each repetition of the same history, at whose end everything is freed (%zu %zu %zu %zu %zu)", w.L.name.c_str(), mem[4] - mem[3], mem[0], mem[1], mem[2], mem[3], mem[4]);
    CHECK(c, !(fd[2] > fd[1] && fd[3] > fd[2] && fd[4] > fd[3]), "%s: more files are open after each repetition of the same history", w.L.name.c_str());
}
#if !defined(__SANITIZE_ADDRESS__)
// 2: what memory holds before it is written must not matter
static void garbage_(Case &c) {
    World w(c, 24); Scratch scratch; std::vector<std::vector<std::string>> t(3);
    int f[3] = {0, 1, 2 + (int) c.draw(2)};
    for (int k = 0; k < 3; k++) {       // each in a process of its own, because the library keeps the state of its random numbers
        int pp[2]; if (pipe(pp)) _exit(3);
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            close(pp[0]); g_fill = (unsigned char) f[k]; g_on = true; w.run("run", t[k], f[k] == 0 ? 0 : f[k] == 1 ? 0xff : 0x3f); g_on = false;
            std::string s; for (auto &x : t[k]) s += x + '\0';
            size_t o = 0; while (o < s.size()) { ssize_t q = write(pp[1], s.data() + o, s.size() - o); if (q <= 0) break; o += q; }
            fflush(stdout); fflush(stderr); _exit(0);
        }
        close(pp[1]); std::string s; char b[65536]; ssize_t g; while ((g = read(pp[0], b, sizeof b)) > 0) s.append(b, g);
        close(pp[0]); int st; waitpid(pid, &st, 0);
        CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s: with memory filled with garbage %d a history ends with signal %d, status %d", w.L.name.c_str(), f[k], WTERMSIG(st), WEXITSTATUS(st));
        for (size_t i = 0, e; (e = s.find('\0', i)) != std::string::npos; i = e + 1) t[k].push_back(s.substr(i, e - i));
        t[k].resize(w.ss.size());
    }
    for (int k = 1; k < 3; k++) for (size_t i = 0; i < w.ss.size(); i++) if (t[k][i] != t[0][i]) {
        auto &x = t[0][i], &y = t[k][i]; size_t p = 0; while (p < x.size() && p < y.size() && x[p] == y[p]) p++;
        size_t a = p ? x.rfind('\n', p - 1) : std::string::npos; a = a == std::string::npos ? 0 : a + 1;
        c.fail("%s: subject %zu (%s): the same history gives '%s' or '%s', depending on what memory held before it was written (character %zu of the line)", w.L.name.c_str(), i, w.ss[i].n.str().c_str(), x.substr(a, std::min<size_t>(160, x.find('\n', a) - a)).c_str(), y.substr(a, std::min<size_t>(160, y.find('\n', a) - a)).c_str(), p - a);
    }
}
#endif
int main(int argc, char **argv) {
    libs();
    std::string rule = "random histories of one or two subjects (networks of any size, optimizers, callbacks, array lists and files, damaged files, exact-size caller buffers at random alignments), ending with everything freed; ";
#if defined(__SANITIZE_ADDRESS__)
    return main_("P22", {{"histories", histories, 4000, 90000}}, rule + "under address and undefined behaviour sanitizers, repeated five times to see leaks of memory and descriptors; all non-trivial", argc, argv);
#else
    return main_("P22", {{"garbage", garbage_, 5000, 150000}}, rule + "in every build, three times with different garbage in fresh and freed memory and on the stack: the traces have to be identical; all non-trivial", argc, argv);
#endif
}
