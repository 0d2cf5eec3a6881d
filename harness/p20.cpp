// P20 - the flat parameter vector
#include "ref.hpp"
using namespace pbt;
static void fill_bits(Rng &r, float *p, size_t n, int style) {
    for (size_t i = 0; i < n; i++) {
        uint32_t b = (uint32_t) r.next();
        if (style == 0) p[i] = (float) r.normal();
        else if (style == 1) { if ((b & 0x7f800000) == 0x7f800000) b &= 0xbfffffff; memcpy(p + i, &b, 4); }      // any finite number
        else if (style == 2) p[i] = (float) ((int) i + 1);                                                        // every element different
        else { static const float S[] = {0.0f, -0.0f, 1e-45f, -1e-45f, 3.4028235e38f, -3.4028235e38f, INFINITY, 1, 16777216.0f, 1.1754942e-38f}; p[i] = S[r.below(10)]; }
    }
}
static void history_(Case &c, bool huge) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 5; o.maxsize = 40; if (c.chance(5)) { o.maxsize = 300; o.maxl = 3; }
    Net n = huge ? gen_huge_net(c, 600000, true) : gen_any(c, o, 200000);
    Rng r(c.seed64());
    { std::vector<float> f(n.np()); fill_bits(r, f.data(), f.size(), (int) c.draw(3)); n.set_flat(f); }
    nn_t *nn = make(L, n), *other = make(L, n); CHECK(c, nn && other, "no network");
    size_t np = n.np();
    CHECK(c, L.sh_n_params(nn) == np, "%s has %zu parameters, the library counts %u", n.str().c_str(), np, L.sh_n_params(nn));
    int ops = 1 + (int) c.draw(7); c.note("%s %s %zu parameters:", L.name.c_str(), n.str().c_str(), np);
    if (n.L() > 1) c.nontrivial(); c.label("variant %s", L.name.c_str());
    Net first = n;
    for (int k = 0; k < ops; k++) {
        if (c.flip()) {
            Buf g(np, (int) c.draw(15), c.flip()); fill_bits(r, g.p, np, 0);
            c.note(" get"); c.label("get");
            L.neuralnet_get_parameters(nn, g.p);
            CHECK(c, g.intact(), "%s: reading the parameters wrote beyond %zu values", n.str().c_str(), np);
            std::vector<float> f = n.flat();
            for (size_t i = 0; i < np; i++) CHECK(c, !memcmp(&g[i], &f[i], 4), "%s: parameter %zu of %zu is read as %.9g instead of %.9g", n.str().c_str(), i, np, g[i], f[i]);
        } else {
            Buf d(np, (int) c.draw(15), c.flip()); int st = (int) c.draw(3); fill_bits(r, d.p, np, st); std::vector<float> dv(d.p, d.p + np); d.readonly();
            c.note(" update(style %d)", st); c.label("update");
            L.neuralnet_update(nn, d.p);
            std::vector<float> f = n.flat(); for (size_t i = 0; i < np; i++) { volatile float x = f[i], y = dv[i]; f[i] = x + y; }
            std::vector<float> got = params(L, nn);
            for (size_t i = 0; i < np; i++) {
                CHECK(c, std::isnan(f[i]) ? std::isnan(got[i]) : !memcmp(&got[i], &f[i], 4), "%s: %s: after adding %.9g parameter %zu of %zu is %.9g instead of %.9g", L.name.c_str(), n.str().c_str(), dv[i], i, np, got[i], f[i]);
                f[i] = got[i];
            }
            n.set_flat(f);
        }
        CHECK(c, same_bits(params(L, nn), n.flat()), "%s: the parameters changed", n.str().c_str());
        for (int l = 0; l < n.L(); l++) CHECK(c, L.sh_n_in(nn, l) == n.sizes[l] && L.sh_n_out(nn, l) == n.sizes[l + 1] && n.acts[l] == L.sh_act(nn, l), "the shape of layer %d changed", l);
    }
    CHECK(c, unchanged(L, other, first), "another network changed");
    L.neuralnet_free(nn); L.neuralnet_free(other);
}
static void history(Case &c) { history_(c, false); }
static void huge(Case &c) { history_(c, true); }
// layers of more than 2 (and sometimes 4) gigabytes
static void enormous(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Sparse s = gen_sparse(c, 1l << 29, c.chance(40) ? (1l << 30) + (1l << 26) : (1l << 29) + (1l << 26), {"linear", "tanh", "sigmoid"});
    nn_t *nn = make(L, s); CHECK(c, nn, "no network of %d x %d weights", s.sizes[s.at], s.sizes[s.at + 1]);
    size_t np = 0; for (size_t l = 0; l + 1 < s.sizes.size(); l++) np += (size_t) s.sizes[l + 1] * (s.sizes[l] + 1);
    c.note("%s %d inputs x %d outputs in layer %d", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at); c.nontrivial(); c.label("variant %s", L.name.c_str());
    CHECK(c, L.sh_n_params(nn) == np, "%d x %d weights in layer %d: there are %zu parameters, the library counts %u", s.sizes[s.at], s.sizes[s.at + 1], s.at, np, L.sh_n_params(nn));
    float *d = (float *) calloc(np, 4), *p = (float *) malloc(np * 4); CHECK(c, d && p, "no memory");
    Rng r(c.seed64()); std::map<size_t, float> set; set[np - 1] = 3; set[0] = -2; for (int i = 0; i < 200; i++) set[r.below(np)] = (float) r.normal();
    std::map<size_t, float> want; auto item = [&](size_t k) -> float * { for (size_t l = 0; l + 1 < s.sizes.size(); l++) { size_t nb = s.sizes[l + 1], nw = nb * s.sizes[l]; if (k < nb) return L.sh_bias(nn, (int) l) + k; k -= nb; if (k < nw) return L.sh_weight(nn, (int) l) + k; k -= nw; } abort(); };
    for (auto &e : set) { d[e.first] = e.second; want[e.first] = *item(e.first) + e.second; }
    L.neuralnet_update(nn, d);
    for (auto &e : want) CHECK(c, *item(e.first) == e.second, "%s: %d x %d weights in layer %d: parameter %zu is %.9g instead of %.9g after an update", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at, e.first, *item(e.first), e.second);
    memset(p, 0x7f, np * 4); L.neuralnet_get_parameters(nn, p);
    size_t k = 0;
    for (size_t l = 0; l + 1 < s.sizes.size(); l++) {
        size_t nb = s.sizes[l + 1], nw = nb * s.sizes[l];
        CHECK(c, !memcmp(p + k, L.sh_bias(nn, (int) l), nb * 4) && !memcmp(p + k + nb, L.sh_weight(nn, (int) l), nw * 4), "%s: %d x %d weights in layer %d: the parameters of layer %zu are read wrongly", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at, l);
        k += nb + nw;
    }
    // the parameters that were not to change: those of the small network, and zeros
    nn_t *fresh = make(L, s); CHECK(c, fresh, "no network"); k = 0;
    for (size_t l = 0; l + 1 < s.sizes.size(); l++) for (int w = 0; w < 2; w++) {
        size_t m = (size_t) s.sizes[l + 1] * (w ? s.sizes[l] : 1); const float *a = w ? L.sh_weight(nn, (int) l) : L.sh_bias(nn, (int) l), *b = w ? L.sh_weight(fresh, (int) l) : L.sh_bias(fresh, (int) l);
        for (size_t i = 0; i < m; i++, k++) if (a[i] != b[i]) CHECK(c, set.count(k), "%s: %d x %d weights in layer %d: an update changed parameter %zu from %.9g to %.9g", L.name.c_str(), s.sizes[s.at], s.sizes[s.at + 1], s.at, k, b[i], a[i]);
    }
    free(d); free(p); L.neuralnet_free(fresh); L.neuralnet_free(nn);
}
// same layout as the gradients: a step along one gradient component changes that component's parameter; the loss changes accordingly
static void layout(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 3; o.maxsize = 8; o.softmax_hidden = false; o.wscale = 0.7; o.acts = {"tanh", "sigmoid", "linear", "softsign"};
    Net n = gen_net(c, o); n.acts.back() = c.flip() ? "linear" : "tanh";
    { Rng r(c.seed64()); std::vector<float> f(n.np()); for (float &v : f) v = (float) (0.4 * r.normal()); n.set_flat(f); }
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, "mse");
    size_t np = n.np(); std::vector<float> x(n.nin()), t(n.nout()), g(np), d(np, 0.0f);
    fill(c, x.data(), x.size(), 1, 0); fill(c, t.data(), t.size(), 1, 0);
    float *ga = L.sh_malloc(np * 4 + 256);
    L.neuralnet_backpropagation(nn, x.data(), t.data(), ga);
    auto loss = [&](const Net &m) { ref::Trace tr = ref::forward(m, x.data()); double s = 0; for (int j = 0; j < m.nout(); j++) { double e = tr.a.back()[j].c - t[j]; s += e * e; } return s / m.nout(); };
    size_t k = c.draw(np - 1); const float h = 1.0f / 256;
    c.note("%s %s component %zu", L.name.c_str(), n.str().c_str(), k); c.nontrivial();
    d[k] = h; L.neuralnet_update(nn, d.data()); Net up = n; up.set_flat(params(L, nn));
    d[k] = -2 * h; L.neuralnet_update(nn, d.data()); Net dn = n; dn.set_flat(params(L, nn));
    { auto f = n.flat(), u = up.flat(); for (size_t i = 0; i < np; i++) CHECK(c, i == k || f[i] == u[i], "%s: an update of component %zu changed component %zu", n.str().c_str(), k, i); }
    double num = (loss(up) - loss(dn)) / (2 * h), scale = 0; for (size_t i = 0; i < np; i++) scale = std::max(scale, (double) std::fabs(ga[i]));
    double want = ga[k];
    CHECK(c, std::fabs(num - want) <= 0.02 * (std::fabs(want) + scale + 0.05), "%s: %s: moving parameter %zu along an update changes the loss by %.6g per unit, gradient component %zu is %.6g", L.name.c_str(), n.str().c_str(), k, num, k, want);
    L.sh_free(ga); L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs();
    return main_("P20", {{"history", history, 60000, 1000000}, {"huge", huge, 800, 20000}, {"layout", layout, 40000, 400000}, {"enormous", enormous, 2, 60, 120, 1}},
                 "sequences of read-outs and updates with arbitrary finite numbers on guarded, misaligned buffers against a model vector (bit-exact), and finite differences of the loss along single components of update and gradient; non-trivial: more than one layer / always", argc, argv);
}
