// P06 - losses and metrics
#include "ref.hpp"
using namespace pbt;
using ref::Ball; using ref::U;

static void gen_pt(Case &c, const std::string &name, std::vector<float> &p, std::vector<float> &t) {
    int style = (int) c.draw(7); Rng r(c.seed64()); double big = c.pick(std::vector<double>{1, 100, 1e-3, 1e12});
    for (size_t i = 0; i < p.size(); i++) {
        switch (style) {
        case 0: p[i] = (float) r.unit(); t[i] = (float) r.below(2); break;
        case 1: p[i] = (float) (big * r.normal()); t[i] = (float) (big * r.normal()); break;                       // either sign
        case 2: p[i] = (float) ((double) r.below(5) / 4); t[i] = (float) ((double) r.below(5) / 4); break;          // ties, exact hits
        case 3: { static const float k[] = {0, 1, 1e-7f, 1 - 1e-7f, 0.99999994f, 1e-8f, 1e-6f, -1, 2, 0.5f, 1.0000001f, -1e-9f}; p[i] = k[r.below(12)]; t[i] = (float) r.below(2); break; }
        case 4: p[i] = (float) r.unit(); t[i] = (float) r.unit(); break;
        case 5: p[i] = (float) (3 * r.normal()); t[i] = r.below(3) ? (float) r.normal() : 0.0f; break;
        case 6: p[i] = (float) (r.sym() * std::pow(10, 6 * r.sym())); t[i] = (float) (r.sym() * std::pow(10, 6 * r.sym())); break;
        default: p[i] = (float) (0.5 + 0.1 * r.sym() + (r.below(4) == 0)); t[i] = (float) (0.5 + 0.6 * r.sym());
        }
    }
}
static bool g_long;
static void metrics(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    std::string m = c.pick(ref::METRICS);
    int n = g_long ? (int) gen_large(c, 60, 300000) : gen_size(c, c.chance(3) ? 3000 : 60);
    std::vector<float> p(n), t(n); gen_pt(c, m, p, t);
    c.note("%s %s n=%d p0=%g t0=%g", L.name.c_str(), m.c_str(), n, p[0], t[0]);
    Buf P(n, (int) c.draw(15), c.flip()), T(n, (int) c.draw(15), c.flip());
    memcpy(P.p, p.data(), n * 4); memcpy(T.p, t.data(), n * 4); P.readonly(); T.readonly();
    std::vector<Ball> b(p.begin(), p.end());
    if (m == "binary_accuracy") for (int i = 0; i < n; i++) if ((p[i] == 0.5f) != (t[i] == 0.5f)) b[i] = p[i] == 0.5f ? Ball(0.5, 1e-3) : ref::hull(0.4, 0.6);   // how to round a half is a convention
    Ball w = ref::metric(m, b, t.data()); if (!w.sane()) c.discard();
    metric_f f = L.get_metric_func(m.c_str()); CHECK(c, f, "metric %s not found", m.c_str());
    float v = f(n, P.p, T.p);
    if (n > 1) c.nontrivial();
    c.label("%s", m.c_str());
    CHECK(c, ref::inside(v, w), "%s: %s of %d values (first: %.9g for %.9g) is %.9g instead of %.9g +- %.3g", L.name.c_str(), m.c_str(), n, p[0], t[0], v, w.c, w.r);
}
static void losses(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    std::string m = c.pick(ref::LOSSES);
    int n = g_long ? (int) gen_large(c, 60, 300000) : gen_size(c, c.chance(3) ? 3000 : 60);
    std::vector<float> p(n), t(n); gen_pt(c, m, p, t);
    c.note("%s loss %s n=%d p0=%g t0=%g", L.name.c_str(), m.c_str(), n, p[0], t[0]);
    Buf P(n, (int) c.draw(15), c.flip()), T(n, (int) c.draw(15), c.flip()), G(n, (int) c.draw(15), c.flip());
    memcpy(P.p, p.data(), n * 4); memcpy(T.p, t.data(), n * 4); P.readonly(); T.readonly();
    for (int i = 0; i < n; i++) G[i] = (float) (1e10 * c.rng.sym());
    std::vector<Ball> b(p.begin(), p.end()), w = ref::loss_grad(m, b, t.data());
    for (auto &x : w) if (!x.sane()) c.discard();
    loss_f f = L.get_loss_func(m.c_str()); CHECK(c, f, "loss %s not found", m.c_str());
    f(n, P.p, T.p, G.p);
    if (n > 1) c.nontrivial();
    c.label("%s", m.c_str());
    CHECK(c, G.intact(), "%s: loss %s wrote beyond its %d elements", L.name.c_str(), m.c_str(), n);
    for (int i = 0; i < n; i++) CHECK(c, ref::inside(G[i], w[i]), "%s: loss %s of %d values: element %d (%.9g for %.9g) is %.9g instead of %.9g +- %.3g", L.name.c_str(), m.c_str(), n, i, p[i], t[i], G[i], w[i].c, w[i].r);
}
static void long_(Case &c) { g_long = true; if (c.flip()) metrics(c); else losses(c); g_long = false; }
// the loss is the derivative of the library's own metric: a metamorphic check that does not share the reference
static void slope(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    std::string m = ref::LOSSES[c.draw(2)];
    int n = gen_size(c, 20); Rng r(c.seed64());
    std::vector<float> p(n), t(n), g(n);
    for (int i = 0; i < n; i++) { t[i] = (float) (2 * r.sym()); if (std::fabs(t[i]) < 0.1f) t[i] = -0.5f; p[i] = t[i] + (float) (r.below(2) ? 0.5 + r.unit() : -0.5 - r.unit()); }
    int k = (int) r.below(n);
    L.get_loss_func(m.c_str())(n, p.data(), t.data(), g.data());
    metric_f f = L.get_metric_func(m.c_str());
    float h = 1.0f / 16, q = p[k];
    p[k] = q + h; double hi = f(n, p.data(), t.data()), dp = p[k]; p[k] = q - h; double lo = f(n, p.data(), t.data()); dp -= p[k];
    double fd = (hi - lo) / dp, tol = 2e-3 * (std::fabs(fd) + std::fabs(hi) + std::fabs(g[k])) ;
    c.note("%s %s n=%d element %d: %g vs %g", L.name.c_str(), m.c_str(), n, k, g[k], fd); c.nontrivial();
    CHECK(c, std::fabs(g[k] - fd) <= tol + 1e-4, "%s: loss %s says %.6g, but the metric changes at rate %.6g", L.name.c_str(), m.c_str(), g[k], fd);
}
static void names(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    std::map<std::string, std::string> ml, mm;
    for (auto &x : ref::LOSSES) ml[x] = x;
    for (auto &x : ref::METRICS) mm[x] = x;
    for (auto *t : {&ml, &mm}) { (*t)["mse"] = "mean_squared_error"; (*t)["mae"] = "mean_absolute_error"; (*t)["mape"] = "mean_absolute_percentage_error"; }
    std::set<void *> s;
    for (auto &kv : ml) { loss_f f = L.get_loss_func(kv.first.c_str()); CHECK(c, f, "loss %s not found", kv.first.c_str()); s.insert((void *) f); CHECK(c, kv.second == L.get_loss_name(f), "loss %s is called %s", kv.first.c_str(), L.get_loss_name(f)); }
    CHECK(c, s.size() == ref::LOSSES.size(), "different losses share a function"); s.clear();
    for (auto &kv : mm) { metric_f f = L.get_metric_func(kv.first.c_str()); CHECK(c, f, "metric %s not found", kv.first.c_str()); s.insert((void *) f); CHECK(c, kv.second == L.get_metric_name(f), "metric %s is called %s", kv.first.c_str(), L.get_metric_name(f)); }
    CHECK(c, s.size() == ref::METRICS.size(), "different metrics share a function");
    auto it = mm.begin(); std::advance(it, c.draw(mm.size() - 1)); std::string a = it->first, b = a; int k = (int) c.draw(5);
    if (k == 0) b = a.substr(0, a.size() - 1); else if (k == 1) b = a + (char) c.range('a', 'z'); else if (k == 2) b[c.draw(b.size() - 1)] ^= 32; else if (k == 3) b = a + " "; else if (k == 4) b[c.draw(b.size() - 1)] = (char) c.range('a', 'z');
    else { b = ""; int n = (int) c.draw(30); for (int i = 0; i < n; i++) b += (char) c.range(32, 126); }
    c.note("%s name \"%s\"", L.name.c_str(), b.c_str()); c.nontrivial();
    if (!mm.count(b)) CHECK(c, !L.get_metric_func(b.c_str()), "\"%s\" resolves to a metric", b.c_str());
    if (!ml.count(b)) CHECK(c, !L.get_loss_func(b.c_str()), "\"%s\" resolves to a loss", b.c_str());
    for (auto &x : ref::METRICS) for (auto &y : ref::LOSSES) if (x == y) CHECK(c, L.get_metric_func(L.get_loss_name(L.get_loss_func(y.c_str()))) == L.get_metric_func(x.c_str()), "the loss %s does not lead to its metric", y.c_str());
}
int main(int argc, char **argv) {
    libs();
    return main_("P06", {{"metrics", metrics, 150000, 2000000}, {"losses", losses, 100000, 1000000}, {"long", long_, 4000, 80000}, {"slope", slope, 20000, 200000}, {"names", names, 5000, 50000}},
                 "random metric or loss, length, predictions and targets (either sign, ties, clip limits, wide magnitudes) against double precision definitions; losses also against differences of the library's metric; names and near misses; non-trivial: more than one element", argc, argv);
}
