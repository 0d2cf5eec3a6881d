// P03 - batch prediction
#include "ref.hpp"
using namespace pbt;

static void batch(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 4; o.maxsize = 40; if (c.chance(5)) { o.maxsize = 400; o.maxl = 2; }
    Net n = gen_any(c, o, 60000, 1);
    int ns = c.chance(4) ? 0 : (int) c.small(60);
    int ai = (int) c.draw(15), ao = (int) c.draw(15); bool fi = c.flip(), fo = c.flip() && !L.blas;
    if (L.blas) fi = false;                       // OpenBLAS itself may read ahead within a page
    c.note("%s %s samples=%d in+%d%s out+%d%s", L.name.c_str(), n.str().c_str(), ns, ai, fi ? " flush" : "", ao, fo ? " flush" : "");
    Buf X((size_t) ns * n.nin(), ai, fi), Y((size_t) ns * n.nout(), ao, fo);
    std::vector<float> x((size_t) ns * n.nin()); fill(c, x.data(), x.size(), c.pick(std::vector<double>{1, 10}));
    if (ns) memcpy(X.p, x.data(), x.size() * 4);
    std::vector<ref::Trace> tr;
    for (int i = 0; i < ns; i++) { tr.push_back(ref::forward(n, &x[(size_t) i * n.nin()])); if (!tr.back().sane) c.discard(); }
    X.readonly();
    for (size_t i = 0; i < Y.n; i++) Y[i] = (float) (c.rng.sym() * 1e25);
    L.sh_threads(1 + (int) c.draw(3));
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    if (ns > 1) c.nontrivial();
    c.label("variant %s", L.name.c_str()); c.label(ns == 0 ? "no samples" : ns == 1 ? "one sample" : "several samples");
    L.neuralnet_predict_batch(nn, ns, X.p, Y.p);
    CHECK(c, Y.intact(), "%s: %s: wrote beyond the %d x %d outputs", L.name.c_str(), n.str().c_str(), ns, n.nout());
    std::vector<float> single(n.nout());
    for (int i = 0; i < ns; i++) {
        L.neuralnet_predict(nn, &x[(size_t) i * n.nin()], single.data());
        for (int j = 0; j < n.nout(); j++) {
            float g = Y[(size_t) i * n.nout() + j]; auto &b = tr[i].a.back()[j];
            CHECK(c, ref::inside(g, b) && std::fabs((double) g - single[j]) <= 2.5 * b.r + 1e-44, "%s: %s: sample %d of %d output %d is %.9g in the batch, %.9g by itself (exactly %.9g +- %.3g)", L.name.c_str(), n.str().c_str(), i, ns, j, g, single[j], b.c, b.r);
        }
    }
    CHECK(c, unchanged(L, nn, n), "%s: batch prediction changed the network", L.name.c_str());
    CHECK(c, x.empty() || !memcmp(X.p, x.data(), x.size() * 4), "batch prediction changed the inputs");
    L.neuralnet_free(nn);
}
// big batches: more than any internal work memory; compared with single predictions
static void big(Case &c) {
    std::vector<const Lib *> v; for (auto &l : libs()) v.push_back(&l);
    if (c.chance(60)) for (auto &l : libs()) if (l.blas) v = {&l};
    const Lib &L = *v[c.draw(v.size() - 1)];
    NetOpt o; o.maxl = 3; o.maxsize = 60; o.wscale = 1; o.acts = {"linear", "relu", "sigmoid", "tanh", "softsign", "hard_sigmoid", "softmax"};
    if (c.chance(20)) { o.maxsize = 3000; o.maxl = 2; }
    bool tiny = c.chance(12); if (tiny) { o.maxsize = 4; o.maxl = 2; }
    Net n = gen_net(c, o);
    long tot = 0; for (int l = 0; l < n.L(); l++) tot += n.sizes[l + 1];
    // sample counts around the 65536 floats the BLAS build works with, and its multiples
    long ns = std::max(1l, 65536 / tot + c.range(-2, 3));
    if (c.flip()) ns = ns * (long) c.range(1, 5) + (long) c.draw(7);
    if (tiny) ns = gen_large(c, 20000, 700000); else ns = std::min(ns, 20000l);
    if ((double) n.np() * ns > 2e8) ns = std::max(1l, (long) (2e8 / n.np()));
    c.note("%s %s samples=%ld", L.name.c_str(), n.str().c_str(), ns);
    std::vector<float> x((size_t) ns * n.nin()), y((size_t) ns * n.nout() + 64, 1234.5f), one(n.nout());
    Rng r(c.seed64()); for (float &v : x) v = (float) r.sym();
    L.sh_threads(2);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    L.neuralnet_predict_batch(nn, (int) ns, x.data(), y.data());
    for (int k = 0; k < 64; k++) CHECK(c, y[(size_t) ns * n.nout() + k] == 1234.5f, "%s: wrote beyond the output", L.name.c_str());
    c.nontrivial(); c.label("variant %s", L.name.c_str()); if (tot * ns > 65536) c.label("exceeds work memory");
    long stride = tiny ? 1 : std::max(1l, ns / 200); if (tiny) c.label(ns > 65536 ? "over 65536 samples" : "over 20000 samples"); long bad = 0;
    for (long i = 0; i < ns; i = (i + 3 > ns - 1 && i < ns - 1) ? ns - 1 : i + stride) {
        L.neuralnet_predict(nn, &x[(size_t) i * n.nin()], one.data());
        bool close = true; for (int j = 0; j < n.nout(); j++) if (!(std::fabs(y[(size_t) i * n.nout() + j] - one[j]) <= 2e-4 * (1 + std::fabs(one[j])))) close = false;
        if (!close) {           // rounding could be amplified: decide by the reference
            ref::Trace t = ref::forward(n, &x[(size_t) i * n.nin()]); if (!t.sane) continue;
            for (int j = 0; j < n.nout(); j++) CHECK(c, ref::inside(y[(size_t) i * n.nout() + j], t.a.back()[j]), "%s: %s: sample %ld of %ld output %d is %.9g in the batch, %.9g by itself", L.name.c_str(), n.str().c_str(), i, ns, j, y[(size_t) i * n.nout() + j], one[j]);
        }
    }
    L.neuralnet_free(nn);
}
// more than INT_MAX floats of inputs or outputs (virtual memory that repeats)
static void huge(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    bool out = c.flip(); const int W = 1 << 15, P = 128; long ns = (1l << 31) / W + (long) c.range(1, 3000);
    Net n; n.sizes = {out ? 1 : W, out ? W : 1}; n.acts = {"linear"}; n.w.emplace_back(W); n.b.emplace_back(n.nout());
    Rng r(c.seed64()); for (float &v : n.w[0]) v = (float) r.sym(); for (float &v : n.b[0]) v = (float) r.sym();
    Repeated big((size_t) ns * W, (size_t) P * W); std::vector<float> small(ns), one(n.nout());
    float *X = out ? small.data() : big.p, *Y = out ? big.p : small.data();
    for (long i = 0; i < (out ? (long) P : (long) P * W); i++) X[i] = (float) r.sym();
    if (out) for (long i = P; i < ns; i++) X[i] = X[i % P];
    c.note("%s %s samples=%ld", L.name.c_str(), n.str().c_str(), ns); c.nontrivial(); c.label(out ? "outputs" : "inputs");
    L.sh_threads(out ? 1 : 2);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    L.neuralnet_predict_batch(nn, (int) ns, X, Y);
    for (int i = 0; i < P; i++) {
        L.neuralnet_predict(nn, X + (size_t) i * n.nin(), one.data());
        for (long k = i; k < ns; k += out ? ns : P) for (int j = 0; j < n.nout(); j++)
            CHECK(c, std::fabs(Y[(size_t) k * n.nout() + j] - one[j]) <= 1e-2, "%s: %s: sample %ld of %ld output %d is %.9g in the batch, %.9g by itself", L.name.c_str(), n.str().c_str(), k, ns, j, Y[(size_t) k * n.nout() + j], one[j]);
    }
    L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs();
    return main_("P03", {{"batch", batch, 60000, 1000000}, {"big", big, 400, 8000}, {"huge", huge, 2, 40, 120, 2}},
                 "random networks and batches (0..60 samples; big: up to 700000, around multiples of the work memory) in every build and on guarded buffers, compared row by row with single predictions and the reference; non-trivial: two or more samples", argc, argv);
}
