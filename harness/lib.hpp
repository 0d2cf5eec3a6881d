// lib.hpp - access to one build variant of the library (a shared object made of the library's sources and shim.c)
#pragma once
#include "pbt.hpp"
#include <dlfcn.h>
#include <dirent.h>

struct nn_t; struct opt_t; struct cb_t; struct npy_t; struct list_t;
typedef float (*metric_f)(const int n, const float *y_pred, const float *y_real);
typedef void (*loss_f)(unsigned int n, const float *y_pred, const float *y_real, float *loss);
typedef void (*act_f)(const int n, float *ar);
typedef void (*deriv_f)(const int n, const float *activation, float *ar);
typedef void (*progress_f)(int x, int n, const char *fmt, ...);

#define LIB_FUNCS(X) \
    X(nn_t *, neuralnet_load, (const char *)) X(void, neuralnet_free, (nn_t *)) X(void, neuralnet_predict, (const nn_t *, const float *, float *)) \
    X(nn_t *, neuralnet_create, (int, int *, char **)) X(void, neuralnet_initialize, (nn_t *, char **)) X(void, neuralnet_set_loss, (nn_t *, const char *)) \
    X(void, neuralnet_backpropagation, (const nn_t *, const float *, const float *, float *)) X(void, neuralnet_save, (const nn_t *, const char *, ...)) \
    X(void, neuralnet_update, (nn_t *, const float *)) X(void, neuralnet_get_parameters, (const nn_t *, float *)) \
    X(void, neuralnet_predict_batch, (const nn_t *, int, const float *, float *)) \
    X(void, optimizer_run_epoch, (opt_t *, unsigned, const float *, const float *, unsigned, const float *, const float *, float *)) \
    X(void, evaluate, (nn_t *, int, const float *, const float *, metric_f *, float *)) \
    X(metric_f, get_metric_func, (const char *)) X(const char *, get_metric_name, (metric_f)) \
    X(loss_f, get_loss_func, (const char *)) X(const char *, get_loss_name, (loss_f)) \
    X(act_f, get_activation_func, (const char *)) X(deriv_f, get_activation_derivative, (act_f)) X(const char *, get_activation_name, (act_f)) \
    X(void, progress_ascii, (int, int, const char *, ...)) \
    X(int, sh_n_layers, (nn_t *)) X(unsigned, sh_n_params, (nn_t *)) X(int, sh_n_in, (nn_t *, int)) X(int, sh_n_out, (nn_t *, int)) \
    X(float *, sh_weight, (nn_t *, int)) X(float *, sh_bias, (nn_t *, int)) X(const char *, sh_act, (nn_t *, int)) X(void *, sh_act_ptr, (nn_t *, int)) \
    X(void, sh_set_act, (nn_t *, int, act_f)) X(int, sh_has_loss, (nn_t *)) X(const char *, sh_loss_name, (nn_t *)) X(loss_f, sh_get_loss, (nn_t *)) X(void, sh_set_loss_fn, (nn_t *, loss_f)) \
    X(void, sh_threads, (int)) X(int, sh_align, (void)) X(float *, sh_malloc, (size_t)) X(void, sh_free, (float *)) \
    X(opt_t *, sh_opt_new, (int, nn_t *, int, int, int, metric_f *, progress_f, int, const float *)) \
    X(void, sh_opt_defaults, (float *, int *, int *, int *, int *)) X(void, sh_opt_free, (opt_t *)) X(int, sh_opt_n_metrics, (opt_t *)) \
    X(const char *, sh_opt_metric_name, (opt_t *, int)) X(int, sh_opt_batchsize, (opt_t *)) X(int, sh_opt_shuffle, (opt_t *)) \
    X(void, sh_opt_set_metrics, (opt_t *, metric_f *)) X(void, sh_opt_set_progress, (opt_t *, progress_f)) X(void, sh_opt_set_batchsize, (opt_t *, int)) \
    X(opt_t *, sh_plain_new, (nn_t *, int, int, metric_f *, progress_f)) \
    X(cb_t *, sh_es_new, (int, int, int, int)) X(int, sh_es_stop, (cb_t *)) X(cb_t *, sh_mcp_new, (int, const char *, int, int, int)) \
    X(cb_t *, sh_log_new, (int, int, const char *, int)) X(void, sh_cb_run, (cb_t *, opt_t *, const float *, int)) X(void, sh_cb_free, (cb_t *)) \
    X(npy_t *, npy_array_load, (const char *)) X(npy_t *, npy_array_mmap, (const char *)) X(void, npy_array_dump, (const npy_t *)) \
    X(void, npy_array_save, (const char *, const npy_t *)) X(void, npy_array_free, (npy_t *)) \
    X(int, npy_array_list_save, (const char *, list_t *)) X(int, npy_array_list_save_compressed, (const char *, list_t *, int, unsigned)) \
    X(size_t, npy_array_list_length, (list_t *)) X(list_t *, npy_array_list_load, (const char *)) X(void, npy_array_list_free, (list_t *)) \
    X(list_t *, npy_array_list_prepend, (list_t *, npy_t *, const char *, ...)) X(list_t *, npy_array_list_append, (list_t *, npy_t *, const char *, ...)) \
    X(npy_t *, sh_npy_new, (int, const size_t *, char, size_t, char, int, const char *, size_t)) X(int, sh_npy_ndim, (npy_t *)) X(size_t, sh_npy_shape, (npy_t *, int)) \
    X(char, sh_npy_type, (npy_t *)) X(char, sh_npy_endian, (npy_t *)) X(size_t, sh_npy_elem, (npy_t *)) X(int, sh_npy_fortran, (npy_t *)) X(char *, sh_npy_data, (npy_t *)) \
    X(list_t *, sh_list_next, (list_t *)) X(npy_t *, sh_list_array, (list_t *)) X(const char *, sh_list_name, (list_t *)) X(void, sh_list_set_name, (list_t *, char *)) X(npy_t *, sh_list_detach, (list_t *)) \
    X(npy_t *, sh_npy_build, (int, int, const size_t *, int, char *)) X(int, sh_list_wrapped_save, (const char *, int, npy_t **, char **, int)) \
    X(void, sh_user_hook, (void (*)(const char *, void *, int, const void *, const void *, long, int))) X(opt_t *, sh_own_new, (nn_t *, int, int, int, metric_f *, progress_f, float, float, int)) \
    X(void *, sh_opt_nn, (opt_t *)) X(void *, sh_opt_progress, (opt_t *)) X(void *, sh_opt_metric, (opt_t *, int)) X(cb_t *, sh_user_cb, (int, int, const float *, int))
// The elementary routines are internal; a check uses those that exist.
#define OPT_FUNCS(X) \
    X(void, matrix_vector_multiply, (int, int, const float *, const float *, float *)) X(void, vector_matrix_multiply, (int, int, const float *, const float *, const float *, float *)) \
    X(void, vector_vector_outer, (int, int, const float *, const float *, float *)) X(void, vector_accumulate, (int, float *, const float *)) \
    X(void, vector_accumulate_unaligned, (int, float *, const float *)) X(void, vector_scale, (int, float *, float)) \
    X(void, vector_divide_by_scalar, (int, float *, float)) X(void, vector_saxpy, (int, float *, float, const float *)) \
    X(void, vector_saxpby, (int, float *, float, const float *, float)) X(void, vector_square_elements, (int, float *, const float *)) \
    X(void, sh_set_batch_hook, (void (*)(unsigned, unsigned, unsigned, const float *, unsigned)))

struct Lib {
    std::string name;
    bool blas = false;
#define X(r, n, a) r (*n) a = nullptr;
    LIB_FUNCS(X) OPT_FUNCS(X)
#undef X
};

static inline Lib load_lib(const std::string &dir, const std::string &name) {
    Lib L; L.name = name; L.blas = name.find("blas") != std::string::npos;
    std::string path = dir + "/lib_" + name + ".so";
    void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot open %s: %s\n", path.c_str(), dlerror()); exit(3); }
#define X(r, n, a) L.n = (r (*) a) dlsym(h, #n); if (!L.n) { fprintf(stderr, "no %s in %s\n", #n, path.c_str()); exit(3); }
    LIB_FUNCS(X)
#undef X
#define X(r, n, a) L.n = (r (*) a) dlsym(h, #n);
    OPT_FUNCS(X)
#undef X
    return L;
}

// all variants named in the environment (LIBDIR, LIBS="sse avx ...")
static inline std::vector<Lib> &libs() {
    static std::vector<Lib> v;
    if (v.empty()) {
        const char *d = getenv("LIBDIR"), *l = getenv("LIBS");
        if (!d || !l) { fprintf(stderr, "LIBDIR and LIBS have to be set\n"); exit(3); }
        std::string s = l; char *save = nullptr;
        for (char *t = strtok_r(&s[0], " ", &save); t; t = strtok_r(nullptr, " ", &save)) v.push_back(load_lib(d, t));
    }
    return v;
}

// ---- generated networks ----------------------------------------------------------------------
static const std::vector<std::string> ACTS = {"linear", "relu", "sigmoid", "tanh", "softsign", "hard_sigmoid", "softplus", "exponential", "softmax"};

struct Net {
    std::vector<int> sizes;
    std::vector<std::string> acts;
    std::vector<std::vector<float>> b, w;      // per layer
    int L() const { return (int) acts.size(); }
    int nin() const { return sizes[0]; }
    int nout() const { return sizes.back(); }
    size_t np() const { size_t n = 0; for (int i = 0; i < L(); i++) n += (size_t)(sizes[i] + 1) * sizes[i + 1]; return n; }
    std::string str() const {
        std::string s = std::to_string(sizes[0]);
        for (int i = 0; i < L(); i++) s += "-" + acts[i] + ":" + std::to_string(sizes[i + 1]);
        return s;
    }
    std::vector<float> flat() const { std::vector<float> v; for (int i = 0; i < L(); i++) { v.insert(v.end(), b[i].begin(), b[i].end()); v.insert(v.end(), w[i].begin(), w[i].end()); } return v; }
    void set_flat(const std::vector<float> &v) { size_t k = 0; for (int i = 0; i < L(); i++) { for (float &x : b[i]) x = v[k++]; for (float &x : w[i]) x = v[k++]; } }
};

// n values in one of several styles; scale is the typical magnitude
static inline void fill(pbt::Case &c, float *p, size_t n, double scale, int maxstyle = 6) {
    int style = (int) c.draw(maxstyle);
    pbt::Rng r(c.seed64());
    for (size_t i = 0; i < n; i++) {
        double v;
        switch (style) {
        case 0: v = scale * r.normal(); break;
        case 1: v = scale * ((double) r.below(7) - 3) / 2; break;                          // small integers, exact zeros
        case 2: v = scale * r.normal() * (r.below(3) == 0); break;                         // sparse
        case 3: v = (double) r.below(2); break;                                            // zeros and ones
        case 4: v = scale * r.sym() * std::pow(10.0, r.sym() * 3); break;                  // mixed magnitudes
        case 5: { int k = (int) r.below(6); v = k == 0 ? 1.0 : k == 1 ? 0.0 : k == 2 ? -1.0 : k == 3 ? -0.0 : scale * r.normal(); break; }
        default: v = r.below(4) ? scale * r.normal() : r.sym() * 1e-39; break;              // subnormals
        }
        p[i] = (float) v;
    }
}

static inline int gen_size(pbt::Case &c, int max) {
    if (c.chance(25)) { int k = (int) c.pick(std::vector<int>{1, 4, 8, 16, 32, 64}) + (int) c.range(-1, 1); return std::min(std::max(k, 1), max); }
    if (c.chance(50)) return 1 + (int) c.draw(max - 1);
    return 1 + (int) c.small(max - 1);
}

// a large number: next to a power of two, or of any magnitude
static inline long gen_large(pbt::Case &c, long lo, long hi) {
    long v;
    if (c.flip()) { int a = 0, b = 0; while ((2l << a) <= lo) a++; while ((2l << b) <= hi) b++; v = (1l << c.range(a, b)) + c.range(-2, 2); }
    else v = (long) (lo * std::pow((double) hi / lo, (double) c.draw(10000) / 10000));
    return std::min(std::max(v, lo), hi);
}

struct NetOpt { int maxl = 4; int maxsize = 40; bool softmax_hidden = true; double wscale = 0; std::vector<std::string> acts = ACTS; };

static inline Net gen_net(pbt::Case &c, const NetOpt &o) {
    Net n;
    int L = 1 + (int) c.draw(o.maxl - 1);
    n.sizes.push_back(gen_size(c, o.maxsize));
    for (int i = 0; i < L; i++) {
        n.sizes.push_back(gen_size(c, o.maxsize));
        std::string a;
        do a = c.pick(o.acts); while (a == "softmax" && i < L - 1 && !o.softmax_hidden);
        n.acts.push_back(a);
    }
    for (int i = 0; i < L; i++) {
        int ni = n.sizes[i], no = n.sizes[i + 1];
        n.w.emplace_back((size_t) ni * no); n.b.emplace_back(no);
        double s = o.wscale > 0 ? o.wscale : c.pick(std::vector<double>{1.0, 0.3, 2.0});
        if (n.acts[i] == "exponential") s = std::min(s, 0.3);
        fill(c, n.w[i].data(), n.w[i].size(), s / std::sqrt((double) ni));
        fill(c, n.b[i].data(), n.b[i].size(), s / 2);
    }
    return n;
}

// one wide layer (also next to powers of two), at most about maxnp parameters
static inline Net gen_large_net(pbt::Case &c, size_t maxnp, bool softmax_hidden = false, double wscale = 0) {
    Net n; int L = 1 + (int) c.draw(2), at = (int) c.draw(L);
    int wide = c.flip() ? (1 << (6 + (int) c.draw(6))) + (int) c.range(-1, 1) : 60 + (int) c.draw(c.flip() ? 700 : 5000);
    wide = (int) std::min<size_t>(wide, maxnp / 4);
    for (int i = 0; i <= L; i++) {
        int m = std::max<int>(1, (int) (maxnp / 2 / wide));
        n.sizes.push_back(i == at ? wide : std::min(m, c.flip() ? 1 + (int) c.draw(99) : 1 + (int) c.small(1000)));
    }
    for (int i = 0; i < L; i++) {
        std::string a; do a = c.pick(ACTS); while (a == "softmax" && i < L - 1 && !softmax_hidden);
        n.acts.push_back(a);
        int ni = n.sizes[i], no = n.sizes[i + 1]; n.w.emplace_back((size_t) ni * no); n.b.emplace_back(no);
        double s = wscale > 0 ? wscale : c.pick(std::vector<double>{1.0, 0.3, 2.0}); if (a == "exponential") s = std::min(s, 0.3);
        fill(c, n.w[i].data(), n.w[i].size(), s / std::sqrt((double) ni)); fill(c, n.b[i].data(), n.b[i].size(), s / 2);
    }
    return n;
}

// layers beyond any size that is usual: up to 150000 nodes, or hundreds of layers
static inline Net gen_huge_net(pbt::Case &c, size_t maxnp, bool softmax_hidden = false, double wscale = 0) {
    Net n; int deep = c.chance(25), L = deep ? (int) gen_large(c, 30, 600) : 1 + (int) c.draw(2), at = (int) c.draw(L);
    long wide = deep ? 1 : gen_large(c, 500, std::min<long>(150000, maxnp / 2));
    for (int i = 0; i <= L; i++) n.sizes.push_back(i == at && !deep ? (int) wide : deep ? 1 + (int) c.small(c.chance(3) ? 40 : 5) : std::max(1, std::min(3000, (int) std::min<long>(maxnp / 2 / wide, gen_large(c, 1, 3000)))));
    for (int i = 0; i < L; i++) {
        std::string a; do a = c.pick(ACTS); while (a == "softmax" && i < L - 1 && !softmax_hidden);
        if (deep && i < L - 1 && (a == "exponential" || a == "softplus")) a = "tanh";
        n.acts.push_back(a);
        int ni = n.sizes[i], no = n.sizes[i + 1]; n.w.emplace_back((size_t) ni * no); n.b.emplace_back(no);
        double s = wscale > 0 ? wscale : deep ? 1.0 : c.pick(std::vector<double>{1.0, 0.3, 2.0}); if (a == "exponential") s = std::min(s, 0.3);
        fill(c, n.w[i].data(), n.w[i].size(), s / std::sqrt((double) ni)); fill(c, n.b[i].data(), n.b[i].size(), s / 2);
    }
    return n;
}

// about np parameters, nearly all of them in one layer
static inline Net gen_vast_net(pbt::Case &c, long np) {
    Net n; long a = std::max(1l, gen_large(c, 100, 20000)), b = std::max(1l, np / a);
    if (c.chance(30)) n.sizes.push_back(1 + (int) c.draw(8));
    n.sizes.push_back((int) a); n.sizes.push_back((int) b);
    if (c.chance(50)) n.sizes.push_back(1 + (int) c.draw(4));
    const int L = (int) n.sizes.size() - 1;
    for (int i = 0; i < L; i++) {
        std::string act; do act = c.pick(ACTS); while (act == "exponential" || act == "softplus" || (act == "softmax" && i < L - 1));
        n.acts.push_back(act);
        int ni = n.sizes[i], no = n.sizes[i + 1]; n.w.emplace_back((size_t) ni * no); n.b.emplace_back(no);
        fill(c, n.w[i].data(), n.w[i].size(), 0.5 / std::sqrt((double) ni)); fill(c, n.b[i].data(), n.b[i].size(), 0.25);
    }
    return n;
}
static inline Net gen_deep_net(pbt::Case &c, bool softmax_hidden, double wscale = 0) { NetOpt o; o.maxl = c.chance(20) ? 120 : 24; o.maxsize = 6; o.softmax_hidden = softmax_hidden; o.wscale = wscale; return gen_net(c, o); }
// mostly gen_net, sometimes wide or deep
static inline Net gen_any(pbt::Case &c, const NetOpt &o, size_t maxnp, int percent = 2) {
    if (c.chance(percent)) return gen_large_net(c, maxnp, o.softmax_hidden, o.wscale);
    if (c.chance(percent)) return gen_deep_net(c, o.softmax_hidden, o.wscale);
    return gen_net(c, o);
}

static inline nn_t *make(const Lib &L, const Net &n) {
    std::vector<int> s = n.sizes; std::vector<char *> a;
    for (auto &x : n.acts) a.push_back((char *) x.c_str());
    nn_t *nn = L.neuralnet_create(n.L(), s.data(), a.data());
    if (!nn) return nullptr;
    for (int i = 0; i < n.L(); i++) {
        memcpy(L.sh_weight(nn, i), n.w[i].data(), n.w[i].size() * 4);
        memcpy(L.sh_bias(nn, i), n.b[i].data(), n.b[i].size() * 4);
    }
    return nn;
}
// A network with one layer of gigabytes of weights, nearly all of them zero: only a few inputs of that layer are ever different from zero.
// `part` has just these inputs (and their weights), and must give the same results.
struct Sparse { Net part; std::vector<int> sizes; int at = 0; std::vector<int> rows; };
static inline Sparse gen_sparse(pbt::Case &c, long lo, long hi, const std::vector<std::string> &out_acts, long maxin = 40000000) {
    Sparse s; long W = c.range(lo, hi), out = gen_large(c, 40, 300000), in = std::max(1l, W / out); s.at = (int) c.draw(1);
    if (s.at) { in = std::min(in, 300000l); out = W / in; }             // the nodes of a layer are on the stack
    else if (in > maxin) { in = maxin; out = W / in; }
    Net &n = s.part; int k = (int) std::min<long>(in, 2 + c.draw(10));
    for (int i = 0; i < k; i++) s.rows.push_back(i == 0 ? (int) in - 1 : (int) c.draw(in - 1));
    std::sort(s.rows.begin(), s.rows.end()); s.rows.erase(std::unique(s.rows.begin(), s.rows.end()), s.rows.end()); k = (int) s.rows.size();
    if (s.at) { n.sizes.push_back(1 + (int) c.draw(6)); n.acts.push_back("relu"); }
    n.sizes.push_back(k); n.sizes.push_back((int) out); n.acts.push_back(c.pick(out_acts));
    s.sizes = n.sizes; s.sizes[s.at] = (int) in;
    for (int l = 0; l < n.L(); l++) {
        n.w.emplace_back((size_t) n.sizes[l] * n.sizes[l + 1]); n.b.emplace_back(n.sizes[l + 1]);
        fill(c, n.w[l].data(), n.w[l].size(), 1); fill(c, n.b[l].data(), n.b[l].size(), 0.5);
    }
    if (s.at) for (float &v : n.b[0]) v = 2 + std::fabs(v);
    return s;
}
static inline nn_t *make(const Lib &L, const Sparse &s) {
    std::vector<int> z = s.sizes; std::vector<char *> a; const Net &n = s.part;
    for (auto &x : n.acts) a.push_back((char *) x.c_str());
    nn_t *nn = L.neuralnet_create(n.L(), z.data(), a.data());
    if (!nn) return nullptr;
    if (s.at) {                                                          // the other nodes in front of the big layer give zero
        int ni = n.sizes[0]; size_t no = s.sizes[1]; float *w = L.sh_weight(nn, 0), *b = L.sh_bias(nn, 0);
        memset(w, 0, ni * no * 4); for (size_t j = 0; j < no; j++) b[j] = -1;
        for (size_t k = 0; k < s.rows.size(); k++) { b[s.rows[k]] = n.b[0][k]; for (int i = 0; i < ni; i++) w[i * no + s.rows[k]] = n.w[0][i * s.rows.size() + k]; }
    }
    size_t no = s.sizes.back(); float *w = L.sh_weight(nn, s.at);
    for (size_t k = 0; k < s.rows.size(); k++) memcpy(w + s.rows[k] * no, n.w.back().data() + k * no, no * 4);
    memcpy(L.sh_bias(nn, s.at), n.b.back().data(), no * 4);
    return nn;
}
static inline std::vector<float> widen(const Sparse &s, const std::vector<float> &x) {     // an input of the whole network
    if (s.at) return x;
    std::vector<float> y(s.sizes[0], 0.0f); for (size_t k = 0; k < s.rows.size(); k++) y[s.rows[k]] = x[k];
    return y;
}
static inline void put(const Lib &L, nn_t *nn, const Net &n) {
    for (int i = 0; i < n.L(); i++) {
        memcpy(L.sh_weight(nn, i), n.w[i].data(), n.w[i].size() * 4);
        memcpy(L.sh_bias(nn, i), n.b[i].data(), n.b[i].size() * 4);
    }
}
static inline std::vector<float> params(const Lib &L, nn_t *nn) {   // read from the layers, not through the library
    std::vector<float> v;
    for (int i = 0; i < L.sh_n_layers(nn); i++) {
        float *b = L.sh_bias(nn, i), *w = L.sh_weight(nn, i); size_t no = L.sh_n_out(nn, i), ni = L.sh_n_in(nn, i);
        v.insert(v.end(), b, b + no); v.insert(v.end(), w, w + ni * no);
    }
    return v;
}
static inline bool same_bits(const std::vector<float> &a, const std::vector<float> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 4)); }
static inline bool unchanged(const Lib &L, nn_t *nn, const Net &n) { return same_bits(params(L, nn), n.flat()); }

// A virtual array of many floats which repeats `period` floats (a multiple of the page size) of real memory
struct Repeated {
    float *p = nullptr; size_t len = 0, period; float *base = nullptr;
    Repeated(size_t total, size_t period_) : period(period_) {
        size_t k = (total + period - 1) / period; len = k * period * 4;
        int fd = memfd_create("repeated", 0);
        if (fd < 0 || ftruncate(fd, period * 4)) { perror("memfd"); throw pbt::Discard{}; }
        char *m = (char *) mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) throw pbt::Discard{};
        for (size_t i = 0; i < k; i++) if (mmap(m + i * period * 4, period * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw pbt::Discard{};
        close(fd); p = base = (float *) m;
    }
    ~Repeated() { munmap(p, len); }
};

#include <ftw.h>
#include <sys/stat.h>
// a scratch directory of the case, which becomes the current directory
struct Scratch {
    std::string dir;
    static int rm(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
    Scratch() {
        const char *b = getenv("SCRATCH"); std::string t = std::string(b ? b : "/tmp") + "/caseXXXXXX";
        if (!mkdtemp(&t[0]) || chdir(t.c_str())) { perror("scratch"); _exit(3); }
        dir = t;
    }
    ~Scratch() { if (chdir("/")) {} nftw(dir.c_str(), rm, 16, FTW_DEPTH | FTW_PHYS); }
};
static inline bool read_file(const std::string &p, std::string &s) {
    s.clear(); FILE *f = fopen(p.c_str(), "rb"); if (!f) return false;
    char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f); return true;
}
static inline void write_file(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _exit(3); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
// redirects a file descriptor (1 or 2) into memory
struct Capture {
    int fd, saved, mem;
    explicit Capture(int fd_) : fd(fd_) { fflush(stdout); fflush(stderr); saved = dup(fd); mem = memfd_create("capture", MFD_CLOEXEC); dup2(mem, fd); }
    std::string text() { fflush(stdout); fflush(stderr); std::string s; char b[65536]; ssize_t k; off_t o = 0; while ((k = pread(mem, b, sizeof b, o)) > 0) { s.append(b, k); o += k; } return s; }
    void reset() { fflush(stdout); fflush(stderr); if (ftruncate(mem, 0)) {} lseek(mem, 0, SEEK_SET); }
    ~Capture() { fflush(stdout); fflush(stderr); dup2(saved, fd); close(saved); close(mem); }
};
static inline Net small_net(pbt::Case &c, int maxl = 2, int maxsize = 6) { NetOpt o; o.maxl = maxl; o.maxsize = maxsize; o.softmax_hidden = false; o.wscale = 0.5; return gen_net(c, o); }
// results of epochs: histories with ties, plateaus, trends and tiny differences
struct History {
    int style; pbt::Rng r; double base; std::vector<float> last;
    History(pbt::Case &c) : style((int) c.draw(6)), r(c.seed64()) { base = c.pick(std::vector<double>{0, 1, -1, 1e-30, 1e30, -1e30, 100}); }
    float next(size_t i) {
        if (last.size() <= i) last.resize(i + 1, (float) base);
        float v = last[i];
        switch (style) {
        case 0: v = (float) ((double) r.below(4) - 1); break;                                         // many ties
        case 1: v = (float) (base + r.sym()); break;
        case 2: { int k = (int) r.below(3); v = k == 0 ? std::nextafterf(v, 3e38f) : k == 1 ? std::nextafterf(v, -3e38f) : v; break; }
        case 3: v = (float) (v + (r.below(4) ? -0.1 : 0.15)); break;                                  // downward trend
        case 4: v = (float) (v + (r.below(4) ? 0.1 : -0.15)); break;                                  // upward trend
        case 5: v = r.below(8) ? v : (float) (base + r.normal()); break;                              // plateaus
        default: { static const float S[] = {0.0f, -0.0f, 1e-45f, -1e-45f, 3.3e38f, -3.3e38f, 1.0f, 0.99999994f}; v = S[r.below(8)]; break; }
        }
        return last[i] = v;
    }
};
