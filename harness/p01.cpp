// P01 - prediction of one sample
#include "ref.hpp"
#include <climits>
using namespace pbt;

static void predict_(Case &c, bool huge) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 5; o.maxsize = 70; if (c.chance(6)) o.maxsize = 300; else if (c.chance(1)) { o.maxsize = 900; o.maxl = 2; }
    Net n = huge ? gen_huge_net(c, 600000, true) : gen_any(c, o, 200000);
    std::vector<float> x(n.nin());
    fill(c, x.data(), x.size(), c.pick(std::vector<double>{1, 0.1, 10, 100}));
    int ai = (int) c.draw(15), ao = (int) c.draw(15); bool fi = c.flip(), fo = c.flip();
    c.note("%s %s in+%d%s out+%d%s x0=%g", L.name.c_str(), n.str().c_str(), ai, fi ? " flush" : "", ao, fo ? " flush" : "", x[0]);
    ref::Trace t = ref::forward(n, x.data());
    if (!t.sane) { c.label("overflowing"); c.discard(); }
    nn_t *nn = make(L, n);
    CHECK(c, nn, "neuralnet_create returned NULL for %s", n.str().c_str());
    Buf in(n.nin(), ai, fi), out(n.nout(), ao, fo);
    memcpy(in.p, x.data(), x.size() * 4);
    for (int i = 0; i < n.nout(); i++) out[i] = c.rng.sym() * 1e30;
    in.readonly();
    if (n.L() > 1 || n.sizes[0] > 1 || n.nout() > 1) c.nontrivial();
    c.label(n.L() > 9 ? "layers 10 or more" : "layers %d", n.L()); c.label("variant %s", L.name.c_str()); c.label("output %s", n.acts.back().c_str());
    if (n.nout() % 8) c.label("outputs not multiple of 8");
    for (int rep = 0; rep < 2; rep++) {
        L.neuralnet_predict(nn, in.p, out.p);
        for (int j = 0; j < n.nout(); j++)
            CHECK(c, ref::inside(out[j], t.a.back()[j]), "%s: %s: output %d is %.9g, but the exact value is %.9g +- %.3g", L.name.c_str(), n.str().c_str(), j, out[j], t.a.back()[j].c, t.a.back()[j].r);
        CHECK(c, out.intact(), "%s: %s: wrote beyond the output of %d floats", L.name.c_str(), n.str().c_str(), n.nout());
        CHECK(c, unchanged(L, nn, n), "%s: prediction changed the network", L.name.c_str());
    }
    CHECK(c, !memcmp(in.p, x.data(), x.size() * 4), "prediction changed the input");
    L.neuralnet_free(nn);
}

static void predict(Case &c) { predict_(c, false); }
static void huge(Case &c) { predict_(c, true); }

// parameters and inputs of very different magnitude in each layer, integer-valued networks (exact results)
static void exact(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Net n; int nl = 1 + (int) c.draw(3);
    n.sizes.push_back(gen_size(c, 40));
    for (int l = 0; l < nl; l++) { n.sizes.push_back(gen_size(c, 40)); n.acts.push_back(c.flip() ? "relu" : "linear"); }
    Rng r(c.seed64());
    int dens = (int) c.range(1, 4);
    for (int l = 0; l < nl; l++) {
        n.w.emplace_back((size_t) n.sizes[l] * n.sizes[l + 1]); n.b.emplace_back(n.sizes[l + 1]);
        for (float &v : n.w[l]) v = r.below(dens) ? 0 : (int) r.below(7) - 3;
        for (float &v : n.b[l]) v = (int) r.below(7) - 3;
    }
    std::vector<float> x(n.nin()); for (float &v : x) v = (int) r.below(5) - 2;
    std::vector<double> cur(x.begin(), x.end());
    double mx = 0;
    for (int l = 0; l < nl; l++) {
        std::vector<double> z(n.b[l].begin(), n.b[l].end());
        for (int i = 0; i < n.sizes[l]; i++) for (int j = 0; j < n.sizes[l + 1]; j++) z[j] += cur[i] * n.w[l][(size_t) i * n.sizes[l + 1] + j];
        std::vector<double> zz(n.b[l].begin(), n.b[l].end()); for (auto &v : zz) v = std::fabs(v);
        for (int i = 0; i < n.sizes[l]; i++) for (int j = 0; j < n.sizes[l + 1]; j++) zz[j] += std::fabs(cur[i] * n.w[l][(size_t) i * n.sizes[l + 1] + j]);
        for (double v : zz) mx = std::max(mx, v);
        if (n.acts[l] == "relu") for (double &v : z) v = std::max(v, 0.0);
        cur = z;
    }
    c.note("%s integers %s", L.name.c_str(), n.str().c_str());
    if (mx > 16777216) c.discard();
    nn_t *nn = make(L, n); CHECK(c, nn, "neuralnet_create returned NULL");
    std::vector<float> out(n.nout(), 77);
    L.neuralnet_predict(nn, x.data(), out.data());
    c.nontrivial(); c.label("variant %s", L.name.c_str());
    for (int j = 0; j < n.nout(); j++) CHECK(c, out[j] == cur[j], "%s: integer network %s: output %d is %.9g instead of exactly %.9g", L.name.c_str(), n.str().c_str(), j, out[j], cur[j]);
    L.neuralnet_free(nn);
}

// layers of up to INT_MAX weights
static void enormous(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Sparse s = gen_sparse(c, 1l << 28, INT_MAX, {"linear", "relu", "tanh", "sigmoid", "softsign"});
    std::vector<float> x(s.part.nin()); fill(c, x.data(), x.size(), 1); std::vector<float> y = widen(s, x), out(s.sizes.back(), 1e30f);
    c.note("%s %d inputs x %d outputs in layer %d", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at); c.nontrivial(); c.label("variant %s", L.name.c_str());
    ref::Trace t = ref::forward(s.part, x.data()); if (!t.sane) c.discard();
    nn_t *nn = make(L, s); CHECK(c, nn, "no network of %d x %d weights", s.sizes[s.at], s.sizes[s.at + 1]);
    L.neuralnet_predict(nn, y.data(), out.data());
    for (size_t j = 0; j < out.size(); j++)
        CHECK(c, ref::inside(out[j], t.a.back()[j]), "%s: %d x %d weights in layer %d: output %zu is %.9g, but the exact value is %.9g +- %.3g", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at, j, out[j], t.a.back()[j].c, t.a.back()[j].r);
    L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs();
    return main_("P01", {{"predict", predict, 120000, 2000000}, {"huge", huge, 4000, 80000}, {"exact", exact, 40000, 500000}, {"enormous", enormous, 12, 400, 120, 2}},
                 "random networks (1-5 layers, sizes up to 300, nine activations), inputs and buffer placements, predicted by every build variant and compared with a ball-arithmetic reference; non-trivial: more than one layer, input or output", argc, argv);
}
