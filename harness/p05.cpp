// P05 - gradients
#include "optmodel.hpp"
using namespace pbt;
using ref::Ball;

static void grad_(Case &c, bool huge) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 5; o.maxsize = 40; o.softmax_hidden = false; if (c.chance(4)) { o.maxsize = 200; o.maxl = 3; }
    Net n = huge ? gen_huge_net(c, 400000) : gen_any(c, o, 120000);
    std::string loss = om::gen_loss(c, n);
    int ai = (int) c.draw(15), at = (int) c.draw(15); bool fi = c.flip(), ft = c.flip();
    std::vector<float> x(n.nin()), t(n.nout());
    fill(c, x.data(), x.size(), c.pick(std::vector<double>{1, 0.1, 10}));
    int ts = (int) c.draw(2); Rng r(c.seed64());
    bool ce = loss == "binary_crossentropy" || loss == "categorical_crossentropy";
    for (float &v : t) v = ts == 0 ? (float) r.below(2) : ts == 1 ? (float) r.unit() : ce ? (float) r.below(2) : (float) (3 * r.sym());
    c.note("%s %s loss=%s x0=%g t0=%g", L.name.c_str(), n.str().c_str(), loss.c_str(), x[0], t[0]);
    ref::Trace tr = ref::forward(n, x.data()); if (!tr.sane) c.discard();
    bool sane; std::vector<Ball> want = ref::gradient(n, tr, loss, t.data(), sane); if (!sane) c.discard();
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    L.neuralnet_set_loss(nn, loss.c_str());
    CHECK(c, L.sh_has_loss(nn) && loss == L.sh_loss_name(nn), "the loss %s was not set", loss.c_str());
    Buf in(n.nin(), ai, fi), tg(n.nout(), at, ft), g(n.np(), 0, n.np() % 16 == 0 && c.flip());
    memcpy(in.p, x.data(), x.size() * 4); memcpy(tg.p, t.data(), t.size() * 4); in.readonly(); tg.readonly();
    int stale = (int) c.draw(3);
    for (size_t i = 0; i < g.n; i++) g[i] = stale == 0 ? (float) (c.rng.sym() * 1e20) : stale == 1 ? NAN : stale == 2 ? INFINITY : -1.0f;
    if (n.L() > 1 || n.np() > 8) c.nontrivial();
    c.label("variant %s", L.name.c_str()); c.label("loss %s", loss.c_str()); c.label(n.L() > 9 ? "layers 10 or more" : "layers %d", n.L());
    for (int k = 0; k < n.L() - 1; k++) c.label("hidden %s", n.acts[k].c_str());
    for (int rep = 0; rep < 2; rep++) {
        L.neuralnet_backpropagation(nn, in.p, tg.p, g.p);
        size_t k = 0;
        for (int l = 0; l < n.L(); l++) {
            size_t nb = n.sizes[l + 1], nw = (size_t) n.sizes[l] * nb;
            for (size_t i = 0; i < nb + nw; i++, k++)
                CHECK(c, ref::inside(g[k], want[k]), "%s: %s, %s: gradient of %s %zu of layer %d is %.9g instead of %.9g +- %.3g", L.name.c_str(), n.str().c_str(), loss.c_str(), i < nb ? "bias" : "weight", i < nb ? i : i - nb, l, g[k], want[k].c, want[k].r);
        }
        CHECK(c, g.intact(), "%s: %s: wrote beyond the %zu gradient elements", L.name.c_str(), n.str().c_str(), n.np());
    }
    CHECK(c, unchanged(L, nn, n), "backpropagation changed the network");
    CHECK(c, !memcmp(in.p, x.data(), x.size() * 4) && !memcmp(tg.p, t.data(), t.size() * 4), "backpropagation changed its inputs");
    L.neuralnet_free(nn);
}

static void grad(Case &c) { grad_(c, false); }
static void huge(Case &c) { grad_(c, true); }
// Changing the loss of a network must give the gradients of the new loss (also when set repeatedly, by short names)
static void switching(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 3; o.maxsize = 12; o.softmax_hidden = false;
    Net n = gen_net(c, o); n.acts.back() = c.flip() ? "sigmoid" : "softmax";
    std::vector<std::pair<std::string, std::string>> names = {{"mean_squared_error", "mean_squared_error"}, {"mse", "mean_squared_error"}, {"mae", "mean_absolute_error"}, {"mean_absolute_error", "mean_absolute_error"},
        {"mape", "mean_absolute_percentage_error"}, {"mean_absolute_percentage_error", "mean_absolute_percentage_error"}, {"binary_crossentropy", "binary_crossentropy"}};
    if (n.acts.back() == "softmax") names = {{"categorical_crossentropy", "categorical_crossentropy"}};
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    std::vector<float> x(n.nin()), t(n.nout()); fill(c, x.data(), x.size(), 1);
    Rng r(c.seed64()); for (float &v : t) v = (float) r.unit();
    ref::Trace tr = ref::forward(n, x.data()); if (!tr.sane) c.discard();
    float *g = L.sh_malloc(n.np() * 4 + 64);
    int k = 2 + (int) c.draw(4); std::string hist;
    for (int i = 0; i < k; i++) {
        auto &p = c.pick(names); hist += p.first + " ";
        L.neuralnet_set_loss(nn, p.first.c_str());
        CHECK(c, L.sh_has_loss(nn) && p.second == L.sh_loss_name(nn), "the loss %s was not set", p.first.c_str());
        bool sane; auto want = ref::gradient(n, tr, p.second, t.data(), sane); if (!sane) c.discard();
        L.neuralnet_backpropagation(nn, x.data(), t.data(), g);
        for (size_t q = 0; q < want.size(); q++) CHECK(c, ref::inside(g[q], want[q]), "%s: %s after setting the losses %s: gradient element %zu is %.9g instead of %.9g +- %.3g", L.name.c_str(), n.str().c_str(), hist.c_str(), q, g[q], want[q].c, want[q].r);
    }
    c.note("%s %s losses %s", L.name.c_str(), n.str().c_str(), hist.c_str()); c.nontrivial();
    L.sh_free(g); L.neuralnet_free(nn);
}
// layers of more than 2 (and sometimes 4) gigabytes
static void enormous(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Sparse s = gen_sparse(c, 1l << 29, c.chance(40) ? (1l << 30) + (1l << 26) : (1l << 29) + (1l << 26), {"linear", "tanh", "sigmoid"}, 300000);
    std::string loss = om::gen_loss(c, s.part);
    std::vector<float> x(s.part.nin()), t(s.part.nout()); fill(c, x.data(), x.size(), 1); std::vector<float> y = widen(s, x);
    Rng r(c.seed64()); for (float &v : t) v = (float) r.unit();
    c.note("%s %d inputs x %d outputs in layer %d, %s", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at, loss.c_str()); c.nontrivial(); c.label("variant %s", L.name.c_str());
    ref::Trace tr = ref::forward(s.part, x.data()); if (!tr.sane) c.discard();
    bool sane; std::vector<Ball> want = ref::gradient(s.part, tr, loss, t.data(), sane); if (!sane) c.discard();
    nn_t *nn = make(L, s); CHECK(c, nn, "no network of %d x %d weights", s.sizes[s.at], s.sizes[s.at + 1]);
    L.neuralnet_set_loss(nn, loss.c_str());
    size_t np = 0; for (size_t l = 0; l + 1 < s.sizes.size(); l++) np += (size_t) s.sizes[l + 1] * (s.sizes[l] + 1);
    float *g = L.sh_malloc(np * 4); CHECK(c, g, "no memory");
    L.neuralnet_backpropagation(nn, y.data(), t.data(), g);
    // the elements of the small network in the big one; all others are zero
    std::vector<size_t> at; size_t o = 0; const Net &n = s.part;
    for (int l = 0; l < n.L(); l++) {
        bool big = l == s.at; size_t no = s.sizes[l + 1];
        for (int j = 0; j < n.sizes[l + 1]; j++) at.push_back(o + (big ? j : s.rows[j]));
        for (int i = 0; i < n.sizes[l]; i++) for (int j = 0; j < n.sizes[l + 1]; j++) at.push_back(o + no + (big ? s.rows[i] * no + j : i * no + s.rows[j]));
        o += no + no * s.sizes[l];
    }
    for (size_t k = 0; k < want.size(); k++) {
        CHECK(c, ref::inside(g[at[k]], want[k]), "%s: %d x %d weights in layer %d, %s: gradient element %zu is %.9g instead of %.9g +- %.3g", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at, loss.c_str(), at[k], g[at[k]], want[k].c, want[k].r);
        g[at[k]] = 0;
    }
    for (size_t k = 0; k < np; k++) CHECK(c, g[k] == 0, "%s: %d x %d weights in layer %d, %s: gradient element %zu is %.9g instead of 0", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at, loss.c_str(), k, g[k]);
    L.sh_free(g); L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs();
    return main_("P05", {{"gradient", grad, 100000, 1500000}, {"huge", huge, 2000, 40000}, {"switching", switching, 20000, 200000}, {"enormous", enormous, 4, 120, 120, 2}},
                 "random networks, losses with supported output activations, samples, stale and guarded gradient buffers, in every build, compared with a ball-arithmetic gradient; non-trivial: two layers or more than 8 parameters", argc, argv);
}
