// worker - executes library calls on behalf of a Python driver: one command per line on fd 3, one answer per line on fd 4.
// Strings are hexadecimal ("-" is the empty one).  Bulk data goes through files.
#include "lib.hpp"
#include <map>
#include <zip.h>
#include <sstream>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live() { return 0; }
#endif
static std::map<std::string, npy_t *> A; static std::map<std::string, list_t *> Ls; static std::map<std::string, nn_t *> N;
static std::istringstream *in;
static std::string word() { std::string s; *in >> s; return s; }
static long num() { return atol(word().c_str()); }
static std::string unhex(const std::string &h) { std::string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) strtol(h.substr(i, 2).c_str(), nullptr, 16); return r; }
static std::string hex(const std::string &s) { if (s.empty()) return "-"; std::string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static std::string str() { return unhex(word()); }
static size_t bytes(const Lib &L, npy_t *a) { size_t n = L.sh_npy_elem(a); for (int i = 0; i < L.sh_npy_ndim(a); i++) n *= L.sh_npy_shape(a, i); return n; }
static std::string desc(const Lib &L, npy_t *a, const std::string &raw) {
    std::string r = std::to_string(L.sh_npy_ndim(a)); for (int i = 0; i < L.sh_npy_ndim(a); i++) r += " " + std::to_string(L.sh_npy_shape(a, i));
    r += " " + std::to_string((unsigned char) L.sh_npy_type(a)) + " " + std::to_string((unsigned char) L.sh_npy_endian(a)) + " " + std::to_string(L.sh_npy_elem(a)) + " " + std::to_string(L.sh_npy_fortran(a));
    size_t n = bytes(L, a); std::string d(L.sh_npy_data(a), n);
    if (n && d[0] == 'x' && d[n / 2] == 'y') r += " "; // the data has been read in any case
    if (raw != "-") write_file(raw, d);
    return r;
}
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void vary(const std::string &kind, std::function<void(int, const char *, long, const char *)> f) {   // the ways to give a formatted name
    std::string fmt = str();
    if (kind == "s") { std::string s = str(); f(1, fmt.c_str(), 0, s.c_str()); }
    else if (kind == "d") { long d = num(); f(2, fmt.c_str(), d, nullptr); }
    else if (kind == "ds") { long d = num(); std::string s = str(); f(3, fmt.c_str(), d, s.c_str()); }
    else f(0, fmt.c_str(), 0, nullptr);
}
static std::string exec(const Lib &L, const std::string &c) {
    if (c == "anew") { std::string id = word(); char t = (char) num(); size_t e = num(); char en = (char) num(); int f = (int) num(), nd = (int) num(); size_t s[8] = {0}; for (int i = 0; i < nd; i++) s[i] = strtoull(word().c_str(), nullptr, 10);
        std::string d; read_file(str(), d); A[id] = L.sh_npy_new(nd, s, t, e, en, f, d.data(), d.size()); return "ok"; }
    if (c == "aload" || c == "ammap") { std::string id = word(), p = str(); npy_t *a = c == "aload" ? L.npy_array_load(p.c_str()) : L.npy_array_mmap(p.c_str()); if (!a) return "null"; A[id] = a; return "ok"; }
    if (c == "abuild") {     // arrays made by the macros, in memory of the caller: mode 0 single files f0, f1, ..., 1 / 2 an archive without / with names, 3 compressed
        int mode = (int) num(), n = (int) num(); std::string f = str(); std::vector<npy_t *> a; std::vector<std::string> data(n), names(n); std::vector<char *> np; std::string r = "ok";
        for (int i = 0; i < n; i++) { int kind = (int) num(), fo = (int) num(), nd = (int) num(); size_t s[8] = {0}; for (int k = 0; k < nd; k++) s[k] = strtoull(word().c_str(), nullptr, 10); read_file(str(), data[i]); names[i] = str(); a.push_back(L.sh_npy_build(kind, nd, s, fo, &data[i][0])); if (!a.back()) return "bad kind"; }
        for (auto &x : names) np.push_back(&x[0]);
        std::vector<std::string> before = data;
        if (mode == 0) for (int i = 0; i < n; i++) L.npy_array_save((f + std::to_string(i)).c_str(), a[i]);
        else r += " " + std::to_string(L.sh_list_wrapped_save(f.c_str(), n, a.data(), mode == 1 ? nullptr : np.data(), mode == 3));
        for (auto *x : a) free(x);
        return data == before ? r : "bad: saving changes the data"; }
    if (c == "asave") { std::string id = word(), p = str(); L.npy_array_save(p.c_str(), A[id]); return "ok"; }
    if (c == "afree") { std::string id = word(); L.npy_array_free(A[id]); A.erase(id); return "ok"; }
    if (c == "adump") { Capture cap(1); L.npy_array_dump(A[word()]); return "ok " + hex(cap.text()); }
    if (c == "adesc") { std::string id = word(); return "ok " + desc(L, A[id], str()); }
    if (c == "abig") {      // what an enormous array is: all zero but for the bytes given, looked at everywhere or only around these
        std::string id = word(); bool full = num() != 0; npy_t *a = A[id]; size_t n = bytes(L, a); const unsigned char *p = (const unsigned char *) L.sh_npy_data(a);
        std::map<size_t, int> at; for (int k = (int) num(); k > 0; k--) { size_t q = strtoull(word().c_str(), nullptr, 10); at[q] = (int) num(); }
        std::string r = std::to_string(L.sh_npy_ndim(a)); for (int i = 0; i < L.sh_npy_ndim(a); i++) r += " " + std::to_string(L.sh_npy_shape(a, i));
        r = "ok " + r + " " + std::to_string((unsigned char) L.sh_npy_type(a)) + " " + std::to_string(L.sh_npy_elem(a)) + " " + std::to_string(L.sh_npy_fortran(a));
        static const std::string zero(1 << 20, '\0'); size_t q = 0; at[n] = 0;
        for (auto &m : at) { if (m.first > n) return r + " outside";
            if (!full && m.first - q > 8192) { if (memcmp(p + q, zero.data(), 4096)) return r + " near " + std::to_string(q); q = m.first - 4096; }
            while (q < m.first) { size_t k = std::min(zero.size(), m.first - q); if (memcmp(p + q, zero.data(), k)) { while (!p[q]) q++; return r + " nonzero " + std::to_string(q); } q += k; }
            if (q < n && p[q] != m.second) return r + " lost " + std::to_string(q); q++; }
        return r + " fine"; }
    if (c == "lappend" || c == "lprepend") {
        std::string lid = word(), id = word(), kind = word(); list_t *l = Ls.count(lid) ? Ls[lid] : nullptr, *r = nullptr; npy_t *a = A[id];
        auto *fn = c == "lappend" ? L.npy_array_list_append : L.npy_array_list_prepend;
        vary(kind, [&](int k, const char *f, long d, const char *s) { r = k == 0 ? fn(l, a, f) : k == 1 ? fn(l, a, f, s) : k == 2 ? fn(l, a, f, (int) d) : fn(l, a, f, (int) d, s); });
        bool there = false; for (list_t *i = r; i; i = L.sh_list_next(i)) if (L.sh_list_array(i) == a) there = true;
        if (r) Ls[lid] = r; if (there) A.erase(id);
        return there ? "ok added" : "ok refused";
    }
    if (c == "lunname") { std::string lid = word(); long k = num(); list_t *l = Ls[lid]; while (k--) l = L.sh_list_next(l); free((void *) L.sh_list_name(l)); L.sh_list_set_name(l, nullptr); return "ok"; }
    if (c == "lsave") { std::string lid = word(), p = str(); return "ok " + std::to_string(L.npy_array_list_save(p.c_str(), Ls.count(lid) ? Ls[lid] : nullptr)); }
    if (c == "lsavec") { std::string lid = word(), p = str(); int m = (int) num(), fl = (int) num(); return "ok " + std::to_string(L.npy_array_list_save_compressed(p.c_str(), Ls.count(lid) ? Ls[lid] : nullptr, m, fl)); }
    if (c == "lload") { std::string lid = word(), p = str(); list_t *l = L.npy_array_list_load(p.c_str()); if (!l) return "null"; Ls[lid] = l; return "ok"; }
    if (c == "llen") { std::string lid = word(); return "ok " + std::to_string(L.npy_array_list_length(Ls.count(lid) ? Ls[lid] : nullptr)); }
    if (c == "lcount") { std::string lid = word(); long k = 0; for (list_t *l = Ls.count(lid) ? Ls[lid] : nullptr; l; l = L.sh_list_next(l)) k++; return "ok " + std::to_string(k); }
    if (c == "litem") { std::string lid = word(); long k = num(); list_t *l = Ls[lid]; while (k-- && l) l = L.sh_list_next(l); if (!l) return "null"; std::string nm = L.sh_list_name(l) ? hex(L.sh_list_name(l)) : "null"; return "ok " + nm + " " + desc(L, L.sh_list_array(l), str()); }
    if (c == "ldetach") { std::string lid = word(), id = word(); long k = num(); list_t *l = Ls[lid]; while (k-- && l) l = L.sh_list_next(l); if (!l) return "null"; A[id] = L.sh_list_detach(l); return "ok"; }
    if (c == "lfree") { std::string lid = word(); L.npy_array_list_free(Ls.count(lid) ? Ls[lid] : nullptr); Ls.erase(lid); return "ok"; }
    if (c == "nload") { std::string id = word(), p = str(); nn_t *n = L.neuralnet_load(p.c_str()); if (!n) return "null"; N[id] = n; return "ok"; }
    if (c == "ncreate") { std::string id = word(); int k = (int) num(); std::vector<int> s; for (int i = 0; i <= k; i++) s.push_back((int) num()); std::vector<std::string> a; std::vector<char *> p; for (int i = 0; i < k; i++) a.push_back(str()); for (auto &x : a) p.push_back(&x[0]);
        nn_t *n = L.neuralnet_create(k, s.data(), p.data()); if (!n) return "null"; N[id] = n; return "ok"; }
    if (c == "nset") { std::string id = word(), d; read_file(str(), d); const float *p = (const float *) d.data(); nn_t *n = N[id];
        for (int l = 0; l < L.sh_n_layers(n); l++) { size_t no = L.sh_n_out(n, l), k = no * L.sh_n_in(n, l); memcpy(L.sh_bias(n, l), p, no * 4); p += no; memcpy(L.sh_weight(n, l), p, k * 4); p += k; } return "ok"; }
    if (c == "ndesc") { std::string id = word(), raw = str(); nn_t *n = N[id]; int k = L.sh_n_layers(n); std::string r = "ok " + std::to_string(k); for (int l = 0; l < k; l++) r += " " + std::to_string(L.sh_n_in(n, l)) + " " + std::to_string(L.sh_n_out(n, l)) + " " + (L.sh_act(n, l) ? hex(L.sh_act(n, l)) : "null");
        auto p = params(L, n); write_file(raw, std::string((const char *) p.data(), p.size() * 4)); return r; }
    if (c == "nsave") { std::string id = word(), kind = word(); nn_t *n = N[id]; vary(kind, [&](int k, const char *f, long d, const char *s) { if (k == 0) L.neuralnet_save(n, f); else if (k == 1) L.neuralnet_save(n, f, s); else if (k == 2) L.neuralnet_save(n, f, (int) d); else L.neuralnet_save(n, f, (int) d, s); }); return "ok"; }
    if (c == "npredict") { std::string id = word(), d; read_file(str(), d); std::string o = str(); nn_t *n = N[id]; size_t k = L.sh_n_out(n, L.sh_n_layers(n) - 1); float *x = L.sh_malloc(d.size() + 64), *y = L.sh_malloc(k * 4 + 64);
        memcpy(x, d.data(), d.size()); L.neuralnet_predict(n, x, y); write_file(o, std::string((const char *) y, k * 4)); L.sh_free(x); L.sh_free(y); return "ok"; }
    if (c == "nuse") {    // whatever was loaded must be usable
        std::string id = word(), p = str(); nn_t *n = N[id]; int k = L.sh_n_layers(n), ni = L.sh_n_in(n, 0), no = L.sh_n_out(n, k - 1);
        for (int l = 0; l < k; l++) { if (L.sh_n_in(n, l) <= 0 || L.sh_n_out(n, l) <= 0 || (l && L.sh_n_in(n, l) != L.sh_n_out(n, l - 1))) return "bad sizes"; if (!L.sh_act_ptr(n, l)) return "bad activation"; if (!L.sh_act(n, l)) return "bad activation name"; }
        std::vector<float> x((size_t) ni * 3, 0.5f), y((size_t) no * 3), t(no, 0.25f); size_t np = L.sh_n_params(n);
        auto q = params(L, n); if (q.size() != np) return "bad parameter count"; float sum = 0; for (float v : q) sum += v;
        L.neuralnet_predict(n, x.data(), y.data()); L.neuralnet_predict_batch(n, 3, x.data(), y.data());
        L.neuralnet_set_loss(n, "mean_squared_error"); bool ok = true; for (int l = 0; l < k; l++) if (!L.get_activation_derivative((act_f) L.sh_act_ptr(n, l))) ok = false;
        float *g = L.sh_malloc(np * 4 + 64); if (ok) L.neuralnet_backpropagation(n, x.data(), t.data(), g); memset(g, 0, np * 4); L.neuralnet_update(n, g); L.sh_free(g);
        L.neuralnet_save(n, "%s", p.c_str()); return "ok " + std::to_string(np); }
    if (c == "nfree") { std::string id = word(); L.neuralnet_free(N[id]); N.erase(id); return "ok"; }
    if (c == "live") { return "ok " + std::to_string(live()) + " " + std::to_string(fds()); }
    if (c == "maps") { std::string p = str(), s; read_file("/proc/self/maps", s); int k = 0; for (size_t i = 0; (i = s.find(p, i)) != std::string::npos; i++) k++; return "ok " + std::to_string(k); }
    if (c == "zipmethod") return "ok " + std::to_string(zip_compression_method_supported((int) num(), 1));
    if (c == "ping") return "ok";
    return "bad command " + c;
}
int main() {
    const Lib &L = libs()[0]; FILE *i = fdopen(3, "r"), *o = fdopen(4, "w"); char *line = nullptr; size_t cap = 0;
    L.sh_threads(1);
    while (getline(&line, &cap, i) > 0) {
        std::string r;
        { std::istringstream s(line); in = &s; std::string c = word(); r = exec(L, c); }
        fflush(stdout); fflush(stderr); fprintf(o, "%s\n", r.c_str()); fflush(o);
    }
    return 0;
}
