// fuzz - coverage-guided fuzzing (libFuzzer) of everything that reads files.  FUZZ_MODE: npy, npz, zip (arrays), model, modelzip
// npz and model take an input in pieces (16 bit length, bytes) which become the entries of a sound archive; zip and modelzip take the archive as it is.
extern "C" {
#include "neuralnet.h"
#include "neuralnet_predict_batch.h"
#include "activation.h"
#include "npy_array.h"
#include "npy_array_list.h"
#include "simd.h"
}
#include <string>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/stat.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" size_t LLVMFuzzerMutate(uint8_t *, size_t, size_t);
extern "C" void *fuzz_dlopen(const char *, int) { return dlopen("/nonexistent/library", RTLD_LAZY); }   // names in the file must not open just any library here
typedef std::string S;
static S g_dir, g_mode; static long g_runs, g_good; static volatile unsigned g_sink;
static void report() { if (FILE *f = fopen((g_dir + "/counts").c_str(), "w")) { fprintf(f, "%ld %ld\n", g_runs, g_good); fclose(f); } }
#define BAD(...) do { char b_[600]; snprintf(b_, sizeof b_, __VA_ARGS__); if (FILE *f_ = fopen((g_dir + "/complaint").c_str(), "w")) { fprintf(f_, "%s\n", b_); fclose(f_); } abort(); } while (0)
extern "C" int LLVMFuzzerInitialize(int *, char ***) { g_dir = getenv("FUZZ_DIR") ? getenv("FUZZ_DIR") : "."; g_mode = getenv("FUZZ_MODE") ? getenv("FUZZ_MODE") : "npy"; atexit(report); return 0; }
static void put(const S &p, const void *d, size_t n) { int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0 || write(f, d, n) != (ssize_t) n) _exit(3); close(f); }

static uint32_t crc(const uint8_t *p, size_t n) { static uint32_t t[256]; if (!t[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; t[i] = c; } uint32_t c = ~0u; while (n--) c = t[(c ^ *p++) & 255] ^ (c >> 8); return ~c; }
static void le(S &s, uint32_t v, int n) { while (n--) s += (char) v, v >>= 8; }
static std::vector<S> pieces(const uint8_t *d, size_t n) { std::vector<S> r; for (size_t i = 0; i + 2 <= n && r.size() < 200;) { size_t k = d[i] | d[i + 1] << 8; i += 2; if (k > n - i) k = n - i; r.emplace_back((const char *) d + i, k); i += k; } return r; }
static S join(const std::vector<S> &v) { S s; for (auto &x : v) { le(s, (uint32_t) std::min<size_t>(x.size(), 65535), 2); s.append(x, 0, 65535); } return s; }
static S zipped(const std::vector<S> &v) {
    S s, dir; for (size_t i = 0; i < v.size(); i++) {
        S nm = "arr_" + std::to_string(i) + ".npy", h; le(h, 20, 2); le(h, 0, 2); le(h, 0, 2); le(h, 0x21 << 16, 4); le(h, crc((const uint8_t *) v[i].data(), v[i].size()), 4); le(h, v[i].size(), 4); le(h, v[i].size(), 4); le(h, nm.size(), 2); le(h, 0, 2);
        le(dir, 0x02014b50, 4); le(dir, 20, 2); dir += h; le(dir, 0, 2); le(dir, 0, 2); le(dir, 0, 2); le(dir, 0, 4); le(dir, s.size(), 4); dir += nm;
        le(s, 0x04034b50, 4); s += h; s += nm; s += v[i]; }
    size_t at = s.size(); s += dir; le(s, 0x06054b50, 4); le(s, 0, 4); le(s, v.size(), 2); le(s, v.size(), 2); le(s, dir.size(), 4); le(s, at, 4); le(s, 0, 2); return s;
}
static bool inpieces() { return g_mode == "npz" || g_mode == "model"; }
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *d, size_t n, size_t max, unsigned seed) {
    if (!inpieces()) return LLVMFuzzerMutate(d, n, max);
    auto v = pieces(d, n); unsigned r = seed * 2654435761u >> 8; auto rnd = [&](unsigned k) { r = r * 1103515245u + 12345; return (r >> 12) % k; };
    unsigned what = rnd(12);
    if (v.empty()) v.push_back("");
    size_t i = rnd(v.size()), j = rnd(v.size());
    if (what == 0) v.insert(v.begin() + i, v[j]); else if (what == 1) v.erase(v.begin() + i); else if (what == 2) std::swap(v[i], v[j]);
    else if (what == 3 && v[i].size() > 10 && v[j].size() > 10) {     // the header of one, the data of another
        size_t a = 10 + (uint8_t) v[i][8] + 256u * (uint8_t) v[i][9], b = 10 + (uint8_t) v[j][8] + 256u * (uint8_t) v[j][9]; if (a <= v[i].size() && b <= v[j].size()) v[i] = v[i].substr(0, a) + v[j].substr(b); }
    else if (what == 4) v[i].resize(rnd(v[i].size() + 1)); else if (what == 5) v[i].resize(v[i].size() + rnd(300), 0);
    else { std::vector<uint8_t> b(v[i].size() + 64); memcpy(b.data(), v[i].data(), v[i].size()); size_t k = LLVMFuzzerMutate(b.data(), v[i].size(), b.size()); v[i].assign((char *) b.data(), k); }
    S s = join(v); if (s.size() > max) s.resize(max); memcpy(d, s.data(), s.size()); return s.size();
}
static size_t bytes(npy_array_t *a) { size_t n = a->elem_size; if (a->ndim < 0 || a->ndim > NPY_ARRAY_MAX_DIMENSIONS) BAD("%d dimensions", a->ndim); for (int i = 0; i < a->ndim; i++) if (__builtin_mul_overflow(n, a->shape[i], &n) && n) BAD("the size overflows"); for (int i = 0; i < a->ndim; i++) if (!a->shape[i]) n = 0; return n; }
static void read_all(npy_array_t *a) { size_t n = bytes(a); unsigned s = 0; for (size_t i = 0; i < n; i++) s += (uint8_t) a->data[i]; g_sink += s; }
static bool sound(npy_array_t *a) { return strchr("fiubcS", a->typechar) && a->typechar && strchr("<>|=", a->endianness) && a->endianness && a->elem_size; }
static void same(npy_array_t *a, npy_array_t *b, const char *what) {
    if (a->ndim != b->ndim || a->elem_size != b->elem_size || a->typechar != b->typechar || a->fortran_order != b->fortran_order) BAD("%s: another type or order", what);
    for (int i = 0; i < a->ndim; i++) if (a->shape[i] != b->shape[i]) BAD("%s: another shape", what);
    size_t n = bytes(a); if (n && memcmp(a->data, b->data, n)) BAD("%s: other data", what);
}
static void one(const S &in, bool first) {
    S out = g_dir + "/out";
    if (g_mode == "npy") {
        npy_array_t *a = npy_array_load(in.c_str()), *m = npy_array_mmap(in.c_str());
        if (a) { read_all(a); npy_array_dump(a); npy_array_save(out.c_str(), a); if (sound(a)) { npy_array_t *b = npy_array_load(out.c_str()); if (!b) BAD("what was loaded and saved cannot be loaded again"); same(a, b, "loaded, saved and loaded again"); npy_array_free(b); } }
        if (m) { read_all(m); npy_array_dump(m); npy_array_save(out.c_str(), m); }
        if (a && m) same(a, m, "mapping instead of loading");
        if (first && (a || m)) g_good++;
        if (a) npy_array_free(a); if (m) npy_array_free(m);
    } else if (g_mode == "npz" || g_mode == "zip") {
        npy_array_list_t *l = npy_array_list_load(in.c_str()); size_t k = 0;
        for (npy_array_list_t *i = l; i; i = i->next, k++) { if (!i->array) BAD("an element without an array"); if (!i->filename) BAD("an element without a name"); read_all(i->array); npy_array_dump(i->array); }
        if (npy_array_list_length(l) != k) BAD("the length is wrong");
        if (l) { npy_array_list_save(out.c_str(), l); npy_array_list_save_compressed((out + "2").c_str(), l, ZIP_CM_DEFLATE, 0); }
        if (first && l) g_good++;
        npy_array_list_free(l);
    } else {
        neuralnet_t *nn = neuralnet_load(in.c_str());
        if (nn) {
            int k = neuralnet_get_n_layers(nn); size_t np = 0, mx = 0; if (k < 1) BAD("%d layers", k);
            for (int l = 0; l < k; l++) { int i = nn->layer[l].n_input, o = nn->layer[l].n_output; if (i <= 0 || o <= 0 || (l && i != nn->layer[l - 1].n_output)) BAD("layer %d is %d x %d", l, i, o); if (!nn->layer[l].activation_func || !get_activation_name(nn->layer[l].activation_func)) BAD("layer %d has no activation", l); np += (size_t) (i + 1) * o; mx = std::max<size_t>(mx, std::max(i, o)); }
            if (np != neuralnet_total_n_parameters(nn)) BAD("the number of parameters is %zu instead of %zu", (size_t) neuralnet_total_n_parameters(nn), np);
            float *q = (float *) simd_malloc(np * 4 + 64), *x = (float *) simd_malloc(mx * 12 + 64), *y = (float *) simd_malloc(mx * 12 + 64);
            for (size_t i = 0; i < mx * 3; i++) x[i] = 0.5f;
            neuralnet_get_parameters(nn, q); neuralnet_predict(nn, x, y); neuralnet_predict_batch(nn, 3, x, y);
            neuralnet_set_loss(nn, "mean_squared_error"); bool ok = true; for (int l = 0; l < k; l++) if (!get_activation_derivative(nn->layer[l].activation_func)) ok = false;
            if (ok) neuralnet_backpropagation(nn, x, x, q);
            neuralnet_save(nn, "%s", out.c_str()); neuralnet_t *b = neuralnet_load(out.c_str()); if (!b) BAD("what was loaded and saved cannot be loaded again");
            if (neuralnet_get_n_layers(b) != k) BAD("loaded, saved and loaded again: %d layers instead of %d", neuralnet_get_n_layers(b), k);
            for (int l = 0; l < k; l++) { size_t i = nn->layer[l].n_input, o = nn->layer[l].n_output; if ((size_t) b->layer[l].n_input != i || (size_t) b->layer[l].n_output != o || memcmp(b->layer[l].weight, nn->layer[l].weight, i * o * 4) || memcmp(b->layer[l].bias, nn->layer[l].bias, o * 4) || b->layer[l].activation_func != nn->layer[l].activation_func) BAD("loaded, saved and loaded again: layer %d differs", l); }
            neuralnet_free(b); simd_free(q); simd_free(x); simd_free(y); neuralnet_free(nn); if (first) g_good++;
        }
    }
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    S in = g_dir + "/in"; g_runs++;
    if (inpieces()) { auto v = pieces(d, n); S z = zipped(v); put(in, z.data(), z.size()); } else put(in, d, n);
    for (int k = 0;; k++) {     // caches may fill, but not grow for ever
        size_t a = __sanitizer_get_current_allocated_bytes(); int fa = open("/dev/null", O_RDONLY); close(fa);
        one(in, k == 0);
        size_t b = __sanitizer_get_current_allocated_bytes(); int fb = open("/dev/null", O_RDONLY); close(fb);
        if (a == b && fa == fb) break;
        if (k == 5) BAD("%ld bytes and %d descriptors stay in use", (long) (b - a), fb - fa);
    }
    return 0;
}
