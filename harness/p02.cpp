#include <sstream>
#include <dlfcn.h>
// P02 - all builds compute the same; elementary routines by their elementwise definition
#include "optmodel.hpp"
using namespace pbt;
using ref::Ball; using ref::U; using ref::TINY;

static int gen_len(Case &c, int max) { if (c.chance(15)) return 0; return gen_size(c, max); }

static void kernels_(Case &c, bool huge) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    int k = (int) c.draw(9);
    double sc = c.pick(std::vector<double>{1, 1e-3, 1e6});
    auto rnd = [&](Buf &b) { std::vector<float> v(b.n); fill(c, v.data(), v.size(), sc); if (b.n) memcpy(b.p, v.data(), v.size() * 4); return v; };
    auto chk = [&](const char *what, float got, Ball want, size_t i, size_t n) { CHECK(c, ref::inside(got, want), "%s: %s: element %zu of %zu is %.9g instead of %.9g +- %.3g", L.name.c_str(), what, i, n, got, want.c, want.r); };
    c.label("variant %s", L.name.c_str());
    if (k <= 2) {
        bool ragged = k != 2;
        int n = gen_len(c, 80), m = gen_len(c, 80); if (huge) { n = (int) gen_large(c, 1, 140000); m = (int) gen_large(c, 1, std::max(1, 500000 / n)); if (c.flip()) std::swap(n, m); }
        int a1 = (int) c.draw(15), a2 = (int) c.draw(15), a3 = (int) c.draw(15); bool f1 = c.flip(), f2 = c.flip(), f3 = c.flip();
        c.note("%s kernel %d n=%d m=%d +%d +%d +%d", L.name.c_str(), k, n, m, a1, a2, a3);
        if (k < 2 && (n == 0 || m == 0)) { n = std::max(n, 1); m = std::max(m, 1); }
        if (n * m > 1) c.nontrivial();
        if (k == 0) {                  // y = W^T x + b, W is n x m
            if (!L.vector_matrix_multiply) c.discard();
            Buf W((size_t) n * m, 0, false), b(m, 0, false), x(n, a1, f1), y(m, a2, f2);
            auto w = rnd(W), bb = rnd(b), xx = rnd(x); W.readonly(); b.readonly(); x.readonly();
            for (int j = 0; j < m; j++) y[j] = (float) (c.rng.sym() * 1e20);
            L.vector_matrix_multiply(n, m, W.p, b.p, x.p, y.p);
            for (int j = 0; j < m; j++) { ref::Sum s; s.add(Ball(bb[j])); for (int i = 0; i < n; i++) s.addprod(Ball(xx[i]), Ball(w[(size_t) i * m + j])); chk("vector_matrix_multiply", y[j], s.get(), j, m); }
            CHECK(c, y.intact(), "%s: vector_matrix_multiply wrote beyond its result", L.name.c_str());
        } else if (k == 1) {           // y = W v, W is n x m
            if (!L.matrix_vector_multiply) c.discard();
            Buf W((size_t) n * m, 0, false), v(m, a1, f1), y(n, a2, f2);
            auto w = rnd(W), vv = rnd(v); W.readonly(); v.readonly();
            memset(y.p, 0, n * 4);
            L.matrix_vector_multiply(n, m, W.p, v.p, y.p);
            for (int i = 0; i < n; i++) { ref::Sum s; for (int j = 0; j < m; j++) s.addprod(Ball(vv[j]), Ball(w[(size_t) i * m + j])); chk("matrix_vector_multiply", y[i], s.get(), i, n); }
            CHECK(c, y.intact(), "%s: matrix_vector_multiply wrote beyond its result", L.name.c_str());
        } else {
            if (!L.vector_vector_outer) c.discard();
            if (n == 0 || m == 0) { n = std::max(n, 1); m = std::max(m, 1); }
            Buf x(n, a1, f1), v(m, a2, f2), M((size_t) n * m, a3, f3);
            auto xx = rnd(x), vv = rnd(v); x.readonly(); v.readonly();
            memset(M.p, 0, (size_t) n * m * 4);
            L.vector_vector_outer(n, m, x.p, v.p, M.p);
            for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) chk("vector_vector_outer", M[(size_t) i * m + j], ref::mul(Ball(xx[i]), Ball(vv[j])), (size_t) i * m + j, (size_t) n * m);
            CHECK(c, M.intact(), "%s: vector_vector_outer wrote beyond its result", L.name.c_str());
        }
        return;
    }
    int n = huge ? (int) gen_large(c, 100, 300000) : gen_len(c, c.chance(10) ? 2000 : 150);
    bool un = k == 4;                  // this one takes any alignment
    int a1 = un ? (int) c.draw(15) : 0, a2 = un ? (int) c.draw(15) : 0;
    c.note("%s kernel %d n=%d +%d +%d", L.name.c_str(), k, n, a1, a2);
    if (n > 1) c.nontrivial();
    Buf a(n, a1, un && c.flip()), b(n, a2, un && c.flip());
    auto va = rnd(a), vb = rnd(b); b.readonly();
    float s = (float) c.pick(std::vector<double>{0.5, -3, 0, 1, 1e-3, 7}), t = (float) c.pick(std::vector<double>{0.9, -1, 0, 2});
    std::vector<Ball> want(n); const char *name = "";
    for (int i = 0; i < n; i++) {
        Ball A(va[i]), B(vb[i]);
        switch (k) {
        case 3: case 4: want[i] = ref::add(A, B); break;
        case 5: want[i] = ref::mul(A, Ball(s)); break;
        case 6: want[i] = ref::widen(Ball(va[i] / (s == 0 ? 4.0 : (double) s)), 2 * U, 2 * TINY); break;
        case 7: want[i] = ref::add(A, ref::mul(Ball(s), B)); break;
        case 8: want[i] = ref::add(ref::mul(Ball(s), B), ref::mul(Ball(t), A)); break;
        default: want[i] = ref::mul(B, B);
        }
    }
#define DO(f, ...) do { name = #f; if (!L.f) c.discard(); L.f(__VA_ARGS__); } while (0)
    switch (k) {
    case 3: DO(vector_accumulate, n, a.p, b.p); break;
    case 4: DO(vector_accumulate_unaligned, n, a.p, b.p); break;
    case 5: DO(vector_scale, n, a.p, s); break;
    case 6: DO(vector_divide_by_scalar, n, a.p, s == 0 ? 4.0f : s); break;
    case 7: DO(vector_saxpy, n, a.p, s, b.p); break;
    case 8: DO(vector_saxpby, n, a.p, s, b.p, t); break;
    default: DO(vector_square_elements, n, a.p, b.p);
    }
    c.label("%s", name);
    for (int i = 0; i < n; i++) chk(name, a[i], want[i], i, n);
    CHECK(c, a.intact(), "%s: %s wrote beyond its %d elements", L.name.c_str(), name, n);
}

static void kernels(Case &c) { kernels_(c, false); }
static void long_(Case &c) { kernels_(c, true); }

// one network, one data set: every build's predictions, gradients, metrics and training step
static void agree(Case &c) {
    NetOpt o; o.maxl = 4; o.maxsize = 50; o.softmax_hidden = false;
    Net n = gen_any(c, o, 30000, 1);
    std::string loss = om::gen_loss(c, n);
    int ns = 1 + (int) c.small(n.np() > 10000 ? 2 : 9);
    om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), loss);
    c.note("%s loss=%s samples=%d", n.str().c_str(), loss.c_str(), ns);
    std::vector<ref::Trace> tr; std::vector<std::vector<Ball>> gr;
    for (int i = 0; i < ns; i++) {
        tr.push_back(ref::forward(n, &d.X[(size_t) i * d.nin])); if (!tr.back().sane) c.discard();
        bool sane; gr.push_back(ref::gradient(n, tr.back(), loss, &d.Y[(size_t) i * d.nout], sane)); if (!sane) c.discard();
    }
    c.nontrivial();
    for (auto &L : libs()) {
        L.sh_threads(1);
        nn_t *nn = make(L, n); CHECK(c, nn, "%s: no network", L.name.c_str());
        L.neuralnet_set_loss(nn, loss.c_str());
        std::vector<float> out((size_t) ns * d.nout);
        L.neuralnet_predict_batch(nn, ns, d.X.data(), out.data());
        float *g = L.sh_malloc(n.np() * 4 + 64);
        for (int i = 0; i < ns; i++) {
            for (int j = 0; j < d.nout; j++) CHECK(c, ref::inside(out[(size_t) i * d.nout + j], tr[i].a.back()[j]), "%s: batch prediction %d,%d of %s is %.9g instead of %.9g +- %.3g", L.name.c_str(), i, j, n.str().c_str(), out[(size_t) i * d.nout + j], tr[i].a.back()[j].c, tr[i].a.back()[j].r);
            L.neuralnet_backpropagation(nn, &d.X[(size_t) i * d.nin], &d.Y[(size_t) i * d.nout], g);
            for (size_t k = 0; k < n.np(); k++) CHECK(c, ref::inside(g[k], gr[i][k]), "%s: gradient element %zu of %zu of %s, %s is %.9g instead of %.9g +- %.3g", L.name.c_str(), k, n.np(), n.str().c_str(), loss.c_str(), g[k], gr[i][k].c, gr[i][k].r);
        }
        metric_f ms[8] = {0}; for (int k = 0; k < 7; k++) ms[k] = L.get_metric_func(ref::METRICS[k].c_str());
        float res[7];
        L.evaluate(nn, ns, d.X.data(), d.Y.data(), ms, res);
        for (int k = 0; k < 7; k++) {
            ref::Sum s; bool sane = true;
            for (int i = 0; i < ns; i++) { Ball b = ref::metric(ref::METRICS[k], tr[i].a.back(), &d.Y[(size_t) i * d.nout]); if (!b.sane()) sane = false; s.add(b); }
            if (!sane || s.m > 1e37) continue;
            Ball w = ref::widen(ref::scale(s.get(), 1.0 / ns), 2 * U, TINY);
            CHECK(c, ref::inside(res[k], w), "%s: %s of %s is %.9g instead of %.9g +- %.3g", L.name.c_str(), ref::METRICS[k].c_str(), n.str().c_str(), res[k], w.c, w.r);
        }
        L.sh_free(g); L.neuralnet_free(nn);
    }
}
// builds without training (-DPREDICTION_ONLY) load what a full build has saved, and predict
struct PO { std::string path; nn_t *(*load)(const char *); void (*predict)(const nn_t *, const float *, float *); void (*batch)(const nn_t *, int, const float *, float *); void (*free_)(nn_t *); };
static std::vector<PO> &po() {
    static std::vector<PO> v; static bool done = false; if (done) return v; done = true;
    std::istringstream s(getenv("PREDONLY") ? getenv("PREDONLY") : ""); std::string p;
    while (s >> p) {
        void *h = dlopen(p.c_str(), RTLD_LAZY | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); continue; }
        PO q; q.path = p; *(void **) &q.load = dlsym(h, "neuralnet_load"); *(void **) &q.predict = dlsym(h, "neuralnet_predict"); *(void **) &q.batch = dlsym(h, "neuralnet_predict_batch"); *(void **) &q.free_ = dlsym(h, "neuralnet_free");
        if (q.load && q.predict && q.batch && q.free_) v.push_back(q);
    }
    return v;
}
static void predonly(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; Scratch scratch;
    NetOpt o; o.maxl = 5; o.maxsize = c.chance(30) ? 70 : 20; o.wscale = 0.8; Net n = gen_any(c, o, 20000, 2);
    int ns = 1 + (int) c.small(30); om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), "mse");
    c.note("%s n=%d", n.str().c_str(), ns); c.nontrivial();
    std::vector<ref::Trace> tr; for (int i = 0; i < ns; i++) { tr.push_back(ref::forward(n, &d.X[(size_t) i * d.nin])); if (!tr.back().sane) c.discard(); }
    nn_t *nn = make(L, n); CHECK(c, nn, "no network"); L.neuralnet_save(nn, "m.npz"); L.neuralnet_free(nn);
    for (auto &q : po()) {
        nn_t *m = q.load("m.npz"); CHECK(c, m, "a build with -DPREDICTION_ONLY cannot load the model %s", n.str().c_str());
        std::vector<float> y((size_t) ns * d.nout, -7), z = y; q.batch(m, ns, d.X.data(), z.data());
        for (int i = 0; i < ns; i++) { q.predict(m, &d.X[(size_t) i * d.nin], &y[(size_t) i * d.nout]);
            for (int j = 0; j < d.nout; j++) { size_t k = (size_t) i * d.nout + j; CHECK(c, ref::inside(y[k], tr[i].a.back()[j]) && ref::inside(z[k], tr[i].a.back()[j]), "a build with -DPREDICTION_ONLY: output %d of sample %d of %s is %.9g (in a batch %.9g) instead of %.9g +- %.3g", j, i, n.str().c_str(), y[k], z[k], tr[i].a.back()[j].c, tr[i].a.back()[j].r); } }
        q.free_(m);
    }
}
static void steps(Case &c) { om::lockstep(c, libs()[c.draw(libs().size() - 1)], 900, 3); }

int main(int argc, char **argv) {
    libs(); po();
    return main_("P02", {{"kernels", kernels, 150000, 2000000}, {"long", long_, 5000, 100000}, {"agree", agree, 12000, 200000}, {"predonly", predonly, 4000, 80000}, {"steps", steps, 60000, 500000}},
                 "kernels: random routine, length (0 and all remainders), alignment, values against the elementwise definition; agree: one random network and data set in every build; predonly: builds with -DPREDICTION_ONLY load and run saved models; steps: optimizer lockstep in a random build; non-trivial: more than one element / always / two steps", argc, argv);
}
