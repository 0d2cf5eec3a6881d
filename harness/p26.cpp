// P26 - running out of memory
#include "optmodel.hpp"
#include <link.h>
#include <memory>
#include <set>
#include <malloc.h>
using namespace pbt;
extern "C" time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
// ---- allocations: who asks, which one fails, which ones are still there -----------------------------
struct Range { uintptr_t lo, hi; int who; };               // 1: the library under test, 2: what it calls (libzip, zlib, the C library)
static Range g_range[256]; static int g_ranges = 0;
static volatile bool g_window = false;
static long g_k = 0, g_seen = 0, g_fired = 0; static bool g_forever = false; static int g_depth = 1;
static const size_t TAB = 1 << 16; static void *g_tab[TAB]; static char g_who[TAB]; static long g_live = 0, g_own = 0;
static int who(void *caller) { uintptr_t a = (uintptr_t) caller; for (int i = 0; i < g_ranges; i++) if (a >= g_range[i].lo && a < g_range[i].hi) return g_range[i].who; return 0; }
static size_t slot(void *p) { return (((uintptr_t) p >> 4) * 0x9e3779b97f4a7c15ull) >> 48; }
static void enter(void *p, int w) { size_t i = slot(p); while (g_tab[i]) i = (i + 1) % TAB; g_tab[i] = p; g_who[i] = (char) w; g_live++; g_own += w == 1; }
static bool leave(void *p) {
    if (!g_live) return false;
    size_t i = slot(p); while (g_tab[i] && g_tab[i] != p) i = (i + 1) % TAB;
    if (!g_tab[i]) return false;
    g_live--; g_own -= g_who[i] == 1; g_tab[i] = nullptr;
    for (size_t j = (i + 1) % TAB; g_tab[j]; j = (j + 1) % TAB) { void *q = g_tab[j]; int w = g_who[j]; g_tab[j] = nullptr; g_live--; g_own -= w == 1; enter(q, w); }
    return true;
}
extern "C" { void *__libc_memalign(size_t, size_t); void __libc_free(void *); }
static void *get(size_t align, size_t n, void *caller) {
    int w = g_window ? who(caller) : 0;
    if (w && w <= g_depth) { g_seen++; if (g_k && (g_seen == g_k || (g_forever && g_seen > g_k))) { g_fired++; errno = ENOMEM; return nullptr; } }
    void *p = __libc_memalign(align < 16 ? 16 : align, n);
    if (p && w) { memset(p, 0xa5, n); enter(p, w); }
    return p;
}
#define CALLER __builtin_return_address(0)
extern "C" {
void *malloc(size_t n) { return get(16, n, CALLER); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = get(16, n, CALLER); if (p) memset(p, 0, n); return p; }
void free(void *p) { if (!p) return; if (leave(p)) memset(p, 0xdd, malloc_usable_size(p)); __libc_free(p); }
void *realloc(void *p, size_t n) { void *q = get(16, n, CALLER); if (!q || !p) return q; size_t k = malloc_usable_size(p); memcpy(q, p, k < n ? k : n); free(p); return q; }
void *memalign(size_t a, size_t n) { return get(a, n, CALLER); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = get(a, n, CALLER); if (!p) return 12; *r = p; return 0; }
void *aligned_alloc(size_t a, size_t n) { return get(a, n, CALLER); }
}
static std::string g_lib;
static int modules(struct dl_phdr_info *i, size_t, void *) {
    const char *n = i->dlpi_name; int w = 0;
    if (strstr(n, g_lib.c_str())) w = 1;
    else if (strstr(n, "libzip") || strstr(n, "libz.so") || strstr(n, "libc.so") || strstr(n, "libbz2") || strstr(n, "liblzma") || strstr(n, "libzstd") || strstr(n, "libcrypto") || strstr(n, "libgnutls")) w = 2;
    if (w) for (int k = 0; k < i->dlpi_phnum && g_ranges < 256; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) g_range[g_ranges++] = {i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz, w};
    return 0;
}
#define IN(call) do { g_seen = g_fired = 0; g_window = true; call; g_window = false; } while (0)
// ---- the world of a case --------------------------------------------------------------------------
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static std::string listing() { std::vector<std::string> v; DIR *d = opendir("."); while (dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); std::sort(v.begin(), v.end()); std::string s; for (auto &x : v) s += x + "|"; return s; }
struct Arr { std::string name; int nd; size_t sh[8]; char t, en; size_t e; int fo; std::string data; };
static Arr gen_arr(Case &c, Rng &r, int i) {
    Arr a; char b[64]; snprintf(b, sizeof b, "array_%d", i); a.name = b; static const char T[] = "fiubS"; a.t = T[r.below(5)]; a.e = a.t == 'b' ? 1 : a.t == 'S' ? 1 + r.below(20) : 4; a.nd = (int) r.below(4);
    size_t k = a.e; for (int d = 0; d < a.nd; d++) { a.sh[d] = 1 + r.below(c.tier == "thorough" ? 12 : 7); k *= a.sh[d]; } a.fo = r.below(2); a.en = a.e == 1 || a.t == 'S' ? '|' : '<';
    a.data.resize(k); for (char &x : a.data) x = (char) r.next(); return a;
}
static npy_t *make_arr(const Lib &L, const Arr &a) { return L.sh_npy_new(a.nd, a.sh, a.t, a.e, a.en, a.fo, a.data.data(), a.data.size()); }
static bool same_arr(const Lib &L, npy_t *p, const Arr &a) {
    if (L.sh_npy_ndim(p) != a.nd || L.sh_npy_type(p) != a.t || L.sh_npy_elem(p) != a.e || (L.sh_npy_fortran(p) != 0) != (a.fo != 0)) return false;
    for (int d = 0; d < a.nd; d++) if (L.sh_npy_shape(p, d) != a.sh[d]) return false;
    return !memcmp(L.sh_npy_data(p), a.data.data(), a.data.size());
}
struct World {
    Case &c; const Lib &L; Scratch scratch; Net n; nn_t *nn; std::vector<float> x, y; bool said = false; std::string text; int calls = 0;
    World(Case &c_, const Lib &l) : c(c_), L(l), n(small_net(c_, c_.chance(20) ? 8 : 3, c_.chance(10) ? 60 : 9)) {
        nn = make(L, n); if (!nn) c.fail("%s: neuralnet_create of %s fails", L.name.c_str(), n.str().c_str());
        L.neuralnet_set_loss(nn, "mean_squared_error"); x.resize(n.nin()); Rng r(c.seed64()); for (float &v : x) v = (float) r.sym(); y = predict(nn);
    }
    ~World() { L.neuralnet_free(nn); }
    std::vector<float> predict(nn_t *m) { float *o = L.sh_malloc((size_t) n.nout() * 4 + 64), *i = L.sh_malloc((size_t) n.nin() * 4 + 64); memcpy(i, x.data(), x.size() * 4); L.neuralnet_predict(m, i, o); std::vector<float> v(o, o + n.nout()); L.sh_free(o); L.sh_free(i); return v; }
    // a network which is as ordered
    void good(nn_t *m, const char *what, bool values) {
        bool ok = L.sh_n_layers(m) == n.L();
        for (int i = 0; ok && i < n.L(); i++) ok = L.sh_n_in(m, i) == n.sizes[i] && L.sh_n_out(m, i) == n.sizes[i + 1] && !strcmp(L.sh_act(m, i), n.acts[i].c_str()) && L.sh_weight(m, i) && L.sh_bias(m, i);
        CHECK(c, ok, "%s: %s gives a network which is not %s", L.name.c_str(), what, n.str().c_str());
        if (!values) put(L, m, n);
        CHECK(c, unchanged(L, m, n), "%s: %s gives %s with other parameters", L.name.c_str(), what, n.str().c_str());
        CHECK(c, same_bits(predict(m), y), "%s: %s gives %s which predicts something else", L.name.c_str(), what, n.str().c_str());
    }
};
// An operation does its call between IN(), releases what it got, and says whether everything was done. It fails by itself if a result is wrong.
struct Op { std::string name; std::function<bool(World &)> run; std::function<void(World &)> intact; };
static const char *ordinal(char *b, size_t n, long total) { snprintf(b, n, "allocation %ld of %ld%s%s fails", g_k, total, g_forever ? " and every later one" : "", g_depth > 1 ? " (including those of the libraries it uses)" : ""); return b; }
static void drive(World &w, Op &op) {
    Case &c = w.c; char b[200]; long total[3]; const char *lib = w.L.name.c_str();
    for (int depth = 1; depth <= 2; depth++) { g_depth = depth; g_k = 0; for (int k = 0; k < 2; k++) { bool done = op.run(w); if (!done) c.fail("%s: %s fails although there is enough memory", lib, op.name.c_str()); } total[depth] = g_seen; }
    int fd = fds(); long base = g_own; const std::string dir = listing();
    std::vector<std::tuple<int, long, bool>> plan; Rng r(c.seed64()); const size_t max = c.tier == "thorough" ? 60 : 24;
    for (int depth = 1; depth <= 2; depth++) for (long k = 1; k <= total[depth]; k++) for (int f = 0; f < 2; f++) plan.emplace_back(depth, k, f);
    while (plan.size() > max) plan.erase(plan.begin() + (long) r.below(plan.size()));
    if (!plan.empty()) c.nontrivial();
    c.label("%s: %s allocations", op.name.c_str(), total[2] == 0 ? "no" : total[2] < 10 ? "1-9" : total[2] < 100 ? "10-99" : "100 and more");
    for (auto &t : plan) {
        g_depth = std::get<0>(t); g_k = std::get<1>(t); g_forever = std::get<2>(t);
        snprintf(c.sh->msg, sizeof c.sh->msg, "%s", ""); c.sh->note[0] = 0; ordinal(b, sizeof b, total[g_depth]); c.note("%s: %s of %s; %s", lib, op.name.c_str(), w.n.str().c_str(), b);
        bool done, said; std::string text;
        { Capture e(2), o(1); done = op.run(w); text = e.text() + o.text(); said = !text.empty(); }
        const long fired = g_fired; g_k = 0;
        CHECK(c, done || said, "%s: when %s, %s does not do what it should, and does not say so", lib, b, op.name.c_str());
        CHECK(c, done || fired, "%s: %s fails although there is enough memory", lib, op.name.c_str());
        CHECK(c, g_depth > 1 || g_own <= base, "%s: when %s, %s leaves %ld blocks of memory behind", lib, b, op.name.c_str(), g_own - base);
        CHECK(c, g_depth > 1 || fds() <= fd, "%s: when %s, %s leaves files open", lib, b, op.name.c_str());
        CHECK(c, unchanged(w.L, w.nn, w.n) && same_bits(w.predict(w.nn), w.y), "%s: when %s, %s changes another network", lib, b, op.name.c_str());
        if (op.intact) op.intact(w);
        fd = std::max(fd, fds()); base = std::max(base, g_own);       // libzip may forget things when its own memory runs out
        bool again; { Capture e(2), o(1); again = op.run(w); }
        CHECK(c, again, "%s: after one call in which %s, %s does not work any more", lib, b, op.name.c_str());
        CHECK(c, listing() == dir, "%s: when %s, %s leaves other files: %s instead of %s", lib, b, op.name.c_str(), listing().c_str(), dir.c_str());
        c.label("%s", done ? "done in spite of the failure" : "reported");
    }
}
static bool whole(World &w, const char *file, const std::vector<Arr> &want) {
    list_t *l = w.L.npy_array_list_load(file); bool ok = w.L.npy_array_list_length(l) == want.size(); size_t i = 0;
    for (list_t *q = l; ok && q; q = w.L.sh_list_next(q), i++) ok = want[i].name == w.L.sh_list_name(q) && same_arr(w.L, w.L.sh_list_array(q), want[i]);
    w.L.npy_array_list_free(l); return ok;
}
static std::vector<Arr> arrays_of(const Net &n) {
    std::vector<Arr> v; size_t longest = 0; for (auto &a : n.acts) longest = std::max(longest, a.size());
    for (int i = 0; i < n.L(); i++) {
        Arr a; a.name = "weight_" + std::to_string(i); a.nd = 2; a.sh[0] = n.sizes[i]; a.sh[1] = n.sizes[i + 1]; a.t = 'f'; a.en = '<'; a.e = 4; a.fo = 0; a.data.assign((const char *) n.w[i].data(), n.w[i].size() * 4); v.push_back(a);
        a.name = "bias_" + std::to_string(i); a.nd = 1; a.sh[0] = n.sizes[i + 1]; a.data.assign((const char *) n.b[i].data(), n.b[i].size() * 4); v.push_back(a);
    }
    Arr a; a.name = "activations"; a.nd = 1; a.sh[0] = n.L(); a.t = 'S'; a.en = '|'; a.e = longest; a.fo = 0; for (auto &s : n.acts) { a.data += s; a.data.append(longest - s.size(), 0); } v.push_back(a);
    return v;
}
// a file is written over: it is either the old one or the complete new one
struct Over {
    std::string file, old; bool was; std::vector<Arr> want;
    Over(World &w, const char *f, const std::vector<Arr> &a) : file(f), was(w.c.chance(75)), want(a) { if (!was) return; if (w.c.flip()) { old = "not an archive"; old.resize(14 + w.c.draw(5000), 'x'); } else { Net m = small_net(w.c, 2, 5); nn_t *o = make(w.L, m); w.L.neuralnet_save(o, "%s", f); w.L.neuralnet_free(o); read_file(file, old); } }
    void before() { if (was) write_file(file, old); else remove(file.c_str()); }
    bool after(World &w, const char *what) {
        std::string now; bool is = read_file(file, now), wh = is && whole(w, file.c_str(), want);
        if (!wh && (is != was || (is && now != old))) { char b[200]; w.c.fail("%s: when %s, %s leaves a file which is neither the old one nor the new one (%zu bytes, %zu before)", w.L.name.c_str(), ordinal(b, sizeof b, g_seen), what, now.size(), old.size()); }
        if (!wh) write_file(file, "");      // the same directory in any case
        return wh;
    }
};
static void setup(const Lib &L) { g_lib = "/lib_" + L.name + ".so"; g_ranges = 0; dl_iterate_phdr(modules, nullptr); L.sh_threads(1); setvbuf(stdout, nullptr, _IOLBF, 65536); }
static void networks(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; setup(L); World w(c, L); Op op; std::shared_ptr<Over> o; cb_t *cb = nullptr; opt_t *opt = nullptr; metric_f mf[2] = {nullptr, nullptr}; float best = 1e6f;
    switch (c.draw(5)) {
    case 0: op = {"neuralnet_create", [&](World &w) {
            std::vector<int> s = w.n.sizes; std::vector<char *> a; for (auto &x : w.n.acts) a.push_back((char *) x.c_str());
            nn_t *m; IN(m = L.neuralnet_create(w.n.L(), s.data(), a.data())); if (!m) return false; w.good(m, "neuralnet_create", false); L.neuralnet_free(m); return true; }, nullptr}; break;
    case 1: L.neuralnet_save(w.nn, "model.npz"); op = {"neuralnet_load", [&](World &w) { nn_t *m; IN(m = L.neuralnet_load("model.npz")); if (!m) return false; w.good(m, "neuralnet_load", true); L.neuralnet_free(m); return true; }, nullptr}; break;
    case 2: o.reset(new Over(w, "model.npz", arrays_of(w.n))); op = {"neuralnet_save", [&](World &w) { o->before(); IN(L.neuralnet_save(w.nn, "model%s", ".npz")); return o->after(w, "neuralnet_save"); }, nullptr}; break;
    case 3: { o.reset(new Over(w, "best.npz", arrays_of(w.n))); mf[0] = L.get_metric_func("mse"); float set[8] = {0.05f, 0.01f, 0.5f, 1, 0.8f, 0.85f, 0.95f, 0.01f}; opt = L.sh_opt_new(0, w.nn, 15, 1, 0, mf, nullptr, 0, set); cb = L.sh_mcp_new(3, "best.npz", 0, 0, 0);
        op = {"modelcheckpoint", [&](World &w) { o->before(); best -= 1; float r[2] = {best, 0}; IN(L.sh_cb_run(cb, opt, r, 0)); return o->after(w, "modelcheckpoint"); }, nullptr}; break; }
    case 4: { int kind = (int) c.draw(2), mask = (int) c.draw(7); op = {kind == 0 ? "earlystopping_new" : kind == 1 ? "modelcheckpoint_new" : "logger_new", [&, kind, mask](World &) {
            cb_t *b; if (kind == 0) IN(b = L.sh_es_new(mask, 3, 0, 0)); else if (kind == 1) IN(b = L.sh_mcp_new(mask | 1, "cp.npz", 0, 0, 0)); else IN(b = L.sh_log_new(mask | 6, 0, "log", 1)); if (!b) return false; L.sh_cb_free(b); return true; }, nullptr}; break; }
    default: { int k = 1 + (int) c.draw(40); std::shared_ptr<std::vector<float>> X(new std::vector<float>((size_t) k * w.n.nin())), Y(new std::vector<float>((size_t) k * w.n.nout())), R(new std::vector<float>()); Rng r(c.seed64()); for (float &v : *X) v = (float) r.sym(); for (float &v : *Y) v = (float) r.sym();
        op = {"evaluate", [&, k, X, Y, R](World &w) { metric_f m[3] = {L.get_metric_func("mae"), L.get_metric_func("mse"), nullptr}; float v[2] = {-77, -77}; IN(L.evaluate(w.nn, k, X->data(), Y->data(), m, v));
            if (R->empty()) R->assign(v, v + 2); return same_bits(*R, std::vector<float>(v, v + 2)); }, nullptr}; }
    }
    c.label("variant %s", L.name.c_str()); drive(w, op);
    if (cb) L.sh_cb_free(cb); if (opt) L.sh_opt_free(opt);
}
static void arrays(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; setup(L); World w(c, L); Op op; Rng r(c.seed64()); const int k = 1 + (int) c.small(12); std::vector<Arr> a; for (int i = 0; i < k; i++) a.push_back(gen_arr(c, r, i));
    list_t *l = nullptr; for (auto &x : a) l = L.npy_array_list_append(l, make_arr(L, x), "%s", x.name.c_str()); std::shared_ptr<Over> o; const int comp = c.flip() ? 8 : 0, pre = (int) c.flip(); npy_t *one = make_arr(L, a[0]);
    auto intact = [&](World &w) { size_t i = 0; for (list_t *q = l; q; q = L.sh_list_next(q), i++) CHECK(w.c, i < a.size() && a[i].name == L.sh_list_name(q) && same_arr(L, L.sh_list_array(q), a[i]), "%s: the list is not what it was", L.name.c_str()); CHECK(w.c, i == a.size(), "%s: the list has lost elements", L.name.c_str()); };
    switch (c.draw(5)) {
    case 0: L.npy_array_list_save_compressed("list.npz", l, comp, 0); op = {"npy_array_list_load", [&](World &w) {
            list_t *m; IN(m = L.npy_array_list_load("list.npz")); size_t i = 0, got = 0;
            for (list_t *q = m; q; q = L.sh_list_next(q)) { got++; while (i < a.size() && a[i].name != L.sh_list_name(q)) i++; CHECK(w.c, i < a.size() && same_arr(L, L.sh_list_array(q), a[i]), "%s: npy_array_list_load gives an element which is not in the archive, or in another order", L.name.c_str()); i++; }
            L.npy_array_list_free(m); return got == a.size(); }, intact}; break;
    case 1: o.reset(new Over(w, "list.npz", a)); op = {"npy_array_list_save", [&, comp](World &w) { o->before(); int n; IN(n = comp ? L.npy_array_list_save_compressed("list.npz", l, comp, 6) : L.npy_array_list_save("list.npz", l)); bool ok = o->after(w, "npy_array_list_save"); CHECK(w.c, ok == (n == (int) a.size()), "%s: npy_array_list_save returns %d for %zu arrays, but the file is %s", L.name.c_str(), n, a.size(), ok ? "complete" : "not complete"); return ok; }, intact}; break;
    case 2: op = {pre ? "npy_array_list_prepend" : "npy_array_list_append", [&, pre](World &w) {
            list_t *from = nullptr, *m; const size_t n0 = w.calls++ % 2 ? 0 : a.size(); for (size_t i = 0; i < n0; i++) from = L.npy_array_list_append(from, make_arr(L, a[i]), "%s", a[i].name.c_str());
            if (pre) IN(m = L.npy_array_list_prepend(from, one, "new %d", 7)); else IN(m = L.npy_array_list_append(from, one, "new %d", 7));
            const size_t n1 = L.npy_array_list_length(m); const bool ok = n1 == n0 + 1; size_t i = 0, at = ok ? pre ? 0 : n0 : n0 + 1, k = 0;
            CHECK(w.c, ok || (n1 == n0 && m == from), "%s: the list without the new element is not the list of before", L.name.c_str()); CHECK(w.c, same_arr(L, one, a[0]), "%s: the array is not what it was", L.name.c_str());
            for (list_t *q = m; q; q = L.sh_list_next(q), i++) {
                if (i == at) { CHECK(w.c, L.sh_list_array(q) == one && !strcmp(L.sh_list_name(q), "new 7"), "%s: the new element is something else", L.name.c_str()); L.sh_list_detach(q); continue; }
                CHECK(w.c, a[k].name == L.sh_list_name(q) && same_arr(L, L.sh_list_array(q), a[k]), "%s: element %zu of the list is not what it was", L.name.c_str(), i); k++;
            }
            L.npy_array_list_free(m); return ok; }, intact}; break;
    case 3: L.npy_array_save("one.npy", one); op = {"npy_array_load", [&](World &w) { npy_t *m; IN(m = L.npy_array_load("one.npy")); if (!m) return false; CHECK(w.c, same_arr(L, m, a[0]), "%s: npy_array_load gives another array", L.name.c_str()); L.npy_array_free(m); return true; }, intact}; break;
    case 4: L.npy_array_save("one.npy", one); op = {"npy_array_mmap", [&](World &w) { npy_t *m; IN(m = L.npy_array_mmap("one.npy")); if (!m) return false; CHECK(w.c, same_arr(L, m, a[0]), "%s: npy_array_mmap gives another array", L.name.c_str()); L.npy_array_free(m); return true; }, intact}; break;
    default: op = {"npy_array_save", [&](World &w) { IN(L.npy_array_save("one.npy", one)); npy_t *m = L.npy_array_load("one.npy"); bool ok = m && same_arr(L, m, a[0]); if (m) L.npy_array_free(m); if (!ok) write_file("one.npy", ""); return ok; }, intact}; break;
    }
    c.label("variant %s", L.name.c_str()); drive(w, op);
    L.npy_array_list_free(l); L.npy_array_free(one);
}
// activations in libraries: each try in a process of its own, because a library stays open
static std::string g_template;
static void custom(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; setup(L); Scratch scratch; static const char *FN[] = {"swish", "relu", "tanh", "f", "linear"};
    std::string t = g_template; size_t at = t.find("ACT-PARAM-1"); float ab[2] = {0.5f, 0.25f}; memcpy(&t[at + 24], ab, sizeof ab); write_file("act.so", t);
    Net n = small_net(c, 4, 9); int k = (int) c.draw(n.L() - 1); const bool create = c.flip();
    for (int i = 0; i < n.L(); i++) if (i == k || c.flip()) n.acts[i] = std::string(FN[c.draw(4)]) + "@./act.so";
    struct Out { long total, fired; int done; } ; Out *o = (Out *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); char b[200]; const char *lib = L.name.c_str();
    std::vector<float> x(n.nin()); Rng r(c.seed64()); for (float &v : x) v = (float) r.sym();
    auto predict = [&](nn_t *m) { float *q = L.sh_malloc((size_t) n.nout() * 4 + 64), *i = L.sh_malloc((size_t) n.nin() * 4 + 64); memcpy(i, x.data(), x.size() * 4); L.neuralnet_predict(m, i, q); std::vector<float> v(q, q + n.nout()); L.sh_free(q); L.sh_free(i); return v; };
    auto get = [&] { nn_t *m; if (create) { std::vector<int> s = n.sizes; std::vector<char *> a; for (auto &z : n.acts) a.push_back((char *) z.c_str()); IN(m = L.neuralnet_create(n.L(), s.data(), a.data())); if (m) put(L, m, n); } else IN(m = L.neuralnet_load("model.npz")); return m; };
    const char *what = create ? "neuralnet_create" : "neuralnet_load";
    auto child = [&](long kk, bool forever, int depth, bool prepare) {
        fflush(stdout); fflush(stderr); c.sh->msg[0] = 0; o->done = 0; pid_t pid = fork();
        if (pid == 0) {
            try {
                if (prepare) { nn_t *m = make(L, n); if (!m) c.fail("%s: a network with activations in a library cannot be made", lib); L.neuralnet_save(m, "model.npz"); L.neuralnet_free(m); o->done = 1; _exit(0); }
                g_k = kk; g_forever = forever; g_depth = depth; long before = fds(); nn_t *m; std::string text; { Capture e(2), q(1); m = get(); text = e.text() + q.text(); } o->total = g_seen; o->fired = g_fired; g_k = 0; ordinal(b, sizeof b, g_seen);
                CHECK(c, m || !text.empty(), "%s: %s gives nothing, and does not say why", lib, what); CHECK(c, m || o->fired, "%s: %s fails although there is enough memory", lib, what);
                nn_t *p = get(); CHECK(c, p, "%s: after one call in which an allocation failed, %s does not work any more", lib, what);
                for (int i = 0; i < n.L(); i++) CHECK(c, n.acts[i] == L.sh_act(p, i), "%s: after one call in which an allocation failed, layer %d has the activation '%s', and not '%s'", lib, i, L.sh_act(p, i), n.acts[i].c_str());
                CHECK(c, same_bits(params(L, p), n.flat()), "%s: after one call in which an allocation failed, %s gives other parameters", lib, what);
                if (m) {
                    Net as = n; bool other = false; for (int i = 0; i < n.L(); i++) { as.acts[i] = L.sh_act(m, i); other |= as.acts[i] != n.acts[i]; CHECK(c, as.acts[i] == n.acts[i] || as.acts[i] == "linear", "%s: %s gives layer %d the activation '%s', and not '%s'", lib, what, i, as.acts[i].c_str(), n.acts[i].c_str()); }
                    CHECK(c, !other || (o->fired && !text.empty()), "%s: %s silently gives a layer another activation", lib, what);
                    nn_t *q = make(L, as); CHECK(c, q && same_bits(predict(q), predict(m)) && same_bits(params(L, m), n.flat()), "%s: the network from %s does not predict what its activations and parameters say", lib, what); L.neuralnet_free(q);
                    if (!other) { CHECK(c, same_bits(predict(m), predict(p)), "%s: two networks of the same file differ", lib); }
                    L.neuralnet_free(m); o->done = !other;
                }
                L.neuralnet_free(p); CHECK(c, depth > 1 || fds() <= before, "%s: %s leaves files open", lib, what);
                long live = g_own; { nn_t *q = get(); L.neuralnet_free(q); } CHECK(c, g_own <= live, "%s: %s leaves memory behind", lib, what);
                long own = 0; std::set<std::string> d; for (auto &z : n.acts) if (z.find('@') != std::string::npos) d.insert(z); for (size_t i = 0; i < TAB; i++) if (g_tab[i] && g_who[i] == 1) own++;
                CHECK(c, depth > 1 || own <= 2 * (long) d.size(), "%s: when an allocation fails, %s leaves %ld blocks of memory behind, for %zu activations", lib, what, own, d.size());
            } catch (Fail &) { exit(77); }
            exit(0);    // what happens at the end of the process is part of it
        }
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        std::string why = WIFEXITED(st) && WEXITSTATUS(st) == 77 ? c.sh->msg : "the process ends with signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ", status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : 0);
        c.fail("%s (%s; allocation %ld%s fails%s; %s)", why.c_str(), lib, kk, forever ? " and every later one" : "", depth > 1 ? ", including those of the C library and libzip" : "", what);
    };
    child(0, false, 1, true); std::vector<std::tuple<int, long, bool>> plan; c.nontrivial();
    for (int d = 1; d <= 2; d++) { child(0, false, d, false); CHECK(c, o->done, "%s: %s of activations in a library fails", lib, what); for (long i = 1; i <= o->total; i++) for (int f = 0; f < 2; f++) plan.emplace_back(d, i, f); }
    while (plan.size() > (c.tier == "thorough" ? 40 : 16)) plan.erase(plan.begin() + (long) r.below(plan.size()));
    for (auto &p : plan) { child(std::get<1>(p), std::get<2>(p), std::get<0>(p), false); c.label("%s", o->done ? "done in spite of the failure" : "reported"); }
    c.label("variant %s", lib); munmap(o, 4096);
}
int main(int argc, char **argv) {
    const char *t = getenv("CUSTOM"); if (!t || !read_file(t, g_template)) { fprintf(stderr, "CUSTOM has to name the template\n"); return 3; }
    libs();
    return main_("P26", {{"networks", networks, 8000, 150000}, {"arrays", arrays, 8000, 150000}, {"custom", custom, 1500, 25000}},
        "one call (creating, loading or saving a network, an array, an archive, a list element, a callback, a checkpoint, an evaluation) is repeated with each of its allocations failing, once or from then on, of the library alone or also of libzip and the C library; non-trivial if the call allocates at all", argc, argv);
}
