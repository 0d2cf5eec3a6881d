// P07 - evaluation and epoch results
#include "optmodel.hpp"
#include <atomic>
using namespace pbt;
using ref::Ball; using ref::U; using ref::TINY;

// metrics of our own: integer values looked up by sample; they record what they are called with
static std::map<float, int> g_id; static std::vector<std::vector<int>> g_val; static std::vector<std::vector<std::pair<int, std::vector<float>>>> g_calls; static std::mutex g_mx; static int g_n; static bool g_badn;
template <int K> static float mymetric(const int n, const float *p, const float *t) {
    std::lock_guard<std::mutex> l(g_mx);
    auto it = g_id.find(t[0]); int id = it == g_id.end() ? -1 : it->second;
    if (n != g_n) g_badn = true;
    g_calls[K].push_back({id, std::vector<float>(p, p + n)});
    return id < 0 ? 1e9f : (float) g_val[K][id];
}
static metric_f MINE[] = {mymetric<0>, mymetric<1>, mymetric<2>, mymetric<3>, mymetric<4>, mymetric<5>, mymetric<6>, mymetric<7>, mymetric<8>, mymetric<9>, mymetric<10>, mymetric<11>};

static void evaluate_(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 3; o.maxsize = 20;
    Net n = gen_any(c, o, 40000);
    int ns = 1 + (int) c.small(n.np() > 2000 ? 40 : c.chance(10) ? 3000 : 60), threads = 1 + (int) c.draw(4);
    int nm = 1 + (int) c.draw(6);
    om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), "mean_squared_error");
    std::vector<int> which; for (int k = 0; k < nm; k++) which.push_back((int) c.draw(6));
    c.note("%s %s samples=%d metrics=%d threads=%d", L.name.c_str(), n.str().c_str(), ns, nm, threads);
    L.sh_threads(threads);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    std::vector<metric_f> ms; for (int k : which) ms.push_back(L.get_metric_func(ref::METRICS[k].c_str())); ms.push_back(nullptr);
    Buf X(d.X.size(), (int) c.draw(15), false), Y(d.Y.size(), (int) c.draw(15), false), R(nm, (int) c.draw(15), c.flip());
    memcpy(X.p, d.X.data(), d.X.size() * 4); memcpy(Y.p, d.Y.data(), d.Y.size() * 4); X.readonly(); Y.readonly();
    std::vector<ref::Sum> s(nm);
    for (int i = 0; i < ns; i++) {
        ref::Trace t = ref::forward(n, &d.X[(size_t) i * d.nin]); if (!t.sane) c.discard();
        for (int k = 0; k < nm; k++) { Ball b = ref::metric(ref::METRICS[which[k]], t.a.back(), &d.Y[(size_t) i * d.nout]); if (!b.sane()) c.discard(); s[k].add(b); }
    }
    L.evaluate(nn, ns, X.p, Y.p, ms.data(), R.p);
    if (ns > 1) c.nontrivial();
    c.label("variant %s", L.name.c_str()); c.label("metrics %d", nm);
    CHECK(c, R.intact(), "%s: evaluate wrote beyond the %d results", L.name.c_str(), nm);
    for (int k = 0; k < nm; k++) {
        if (s[k].m > 1e37) continue;
        Ball w = ref::widen(ref::scale(s[k].get(), 1.0 / ns), 2 * U, TINY);
        CHECK(c, ref::inside(R[k], w), "%s: %s: metric %d (%s) over %d samples is %.9g instead of %.9g +- %.3g", L.name.c_str(), n.str().c_str(), k, ref::METRICS[which[k]].c_str(), ns, R[k], w.c, w.r);
    }
    CHECK(c, unchanged(L, nn, n), "evaluation changed the network");
    L.neuralnet_free(nn);
}

static void setup_mine(Case &c, const om::Data &tr, const om::Data &va, int nm) {
    g_id.clear(); g_val.assign(12, {}); g_calls.assign(12, {}); g_badn = false; g_n = tr.nout;
    for (int i = 0; i < tr.n; i++) g_id[tr.Y[(size_t) i * tr.nout]] = i;
    for (int i = 0; i < va.n; i++) g_id[va.Y[(size_t) i * va.nout]] = tr.n + i;
    Rng r(c.seed64()); int range = c.flip() ? 3 : 2000;
    for (int k = 0; k < nm; k++) for (int i = 0; i < tr.n + va.n; i++) g_val[k].push_back((int) r.below(range) - range / 3);
}
// expected results and recorded calls of our metrics over the samples [from, from+n)
static void check_mine(Case &c, const Lib &L, const Net &n, const om::Data &d, int from, int nm, const float *res, const char *what) {
    std::vector<ref::Trace> tr; 
    for (int i = 0; i < d.n; i++) { tr.push_back(ref::forward(n, &d.X[(size_t) i * d.nin])); if (!tr.back().sane) c.discard(); }
    for (int k = 0; k < nm; k++) {
        long s = 0; std::vector<int> cnt(d.n);
        for (auto &cl : g_calls[k]) {
            CHECK(c, cl.first >= 0, "%s: metric %d was given a target that does not exist", what, k);
            int i = cl.first - from; if (i < 0 || i >= d.n) continue;
            cnt[i]++;
            for (int j = 0; j < d.nout; j++) CHECK(c, ref::inside(cl.second[j], tr[i].a.back()[j], 3), "%s: %s: metric %d was given prediction %.9g for output %d of sample %d, which should be %.9g +- %.3g", L.name.c_str(), what, k, cl.second[j], j, i, tr[i].a.back()[j].c, tr[i].a.back()[j].r);
        }
        for (int i = 0; i < d.n; i++) { CHECK(c, cnt[i] >= 1, "%s: %s: metric %d was not taken of sample %d of %d", L.name.c_str(), what, k, i, d.n); s += g_val[k][from + i]; }
        double w = (double) s / d.n;
        CHECK(c, std::fabs(res[k] - w) <= 3 * U * std::fabs(w), "%s: %s: metric %d over %d samples is %.9g instead of %.9g", L.name.c_str(), what, k, d.n, res[k], w);
    }
}
static void own(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 2; o.maxsize = 12;
    Net n = gen_net(c, o);
    int ns = 1 + (int) c.small(c.chance(10) ? 1500 : 60), threads = 1 + (int) c.draw(4), nm = 1 + (int) c.draw(11);
    om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), "mean_squared_error"), none{0, n.nin(), n.nout()};
    setup_mine(c, d, none, nm);
    c.note("%s %s samples=%d own metrics=%d threads=%d", L.name.c_str(), n.str().c_str(), ns, nm, threads);
    L.sh_threads(threads);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    std::vector<metric_f> ms(MINE, MINE + nm); ms.push_back(nullptr);
    Buf R(nm, 0, c.flip());
    L.evaluate(nn, ns, d.X.data(), d.Y.data(), ms.data(), R.p);
    if (ns > 1) c.nontrivial(); c.label("variant %s", L.name.c_str());
    CHECK(c, R.intact(), "evaluate wrote beyond the %d results", nm);
    CHECK(c, !g_badn, "a metric was called with a wrong length");
    check_mine(c, L, n, d, 0, nm, R.p, "evaluate");
    L.neuralnet_free(nn);
}

static void epoch(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 2; o.maxsize = 10; o.softmax_hidden = false; o.wscale = 0.5;
    Net n = gen_net(c, o);
    std::string loss = om::gen_loss(c, n);
    int mx = c.chance(4) ? 800 : 30, ns = 1 + (int) c.small(mx), nv = c.chance(70) ? 1 + (int) c.small(mx) : 0, nm = 1 + (int) c.draw(4), B = 1 + (int) c.small(12), kind = (int) c.draw(3), threads = 1 + (int) c.draw(2);
    om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), loss), v = om::gen_data(c, nv, n.nin(), n.nout(), loss);
    for (int i = 0; i < nv; i++) v.Y[(size_t) i * v.nout] = -(float) (i + 1) / 64;
    int mode = nv ? 0 : (int) c.draw(2);        // how the absence of validation data is expressed
    setup_mine(c, d, v, nm);
    c.note("%s %s %s loss=%s n=%d valid=%d mode=%d metrics=%d B=%d", L.name.c_str(), om::KIND[kind], n.str().c_str(), loss.c_str(), ns, nv, mode, nm, B);
    L.sh_threads(threads);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    L.neuralnet_set_loss(nn, loss.c_str());
    std::vector<metric_f> ms(MINE, MINE + nm); ms.push_back(nullptr);
    float s[8] = {0.01f};
    opt_t *opt = L.sh_opt_new(kind, nn, 15, B, c.flip(), ms.data(), om::noprogress, 1, s);
    int epochs = 1 + (int) c.draw(2);
    c.nontrivial(); c.label("variant %s", L.name.c_str()); c.label(nv ? "with validation" : "without validation"); c.label("%s", om::KIND[kind]);
    float dummy = 0;
    for (int e = 0; e < epochs; e++) {
        Buf R(nm * (nv ? 2 : 1), 0, c.flip());
        for (size_t i = 0; i < R.n; i++) R[i] = 1e20f;
        for (auto &k : g_calls) k.clear();
        // mode 1 and 2: data without a count, or a count without data
        L.optimizer_run_epoch(opt, ns, d.X.data(), d.Y.data(), nv ? nv : mode == 2 ? 5 : 0, nv ? v.X.data() : mode == 1 ? &dummy : nullptr, nv ? v.Y.data() : mode == 1 ? &dummy : nullptr, R.p);
        CHECK(c, R.intact(), "%s: the epoch wrote beyond its %zu results (%d metrics, %s validation)", L.name.c_str(), R.n, nm, nv ? "with" : "without");
        Net now = n; now.set_flat(params(L, nn));
        bool ok = true; for (float x : now.flat()) if (!(std::fabs(x) < 1e6)) ok = false; if (!ok) c.discard();
        CHECK(c, !g_badn, "a metric was called with a wrong length");
        check_mine(c, L, now, d, 0, nm, R.p, "training results");
        if (nv) check_mine(c, L, now, v, ns, nm, R.p + nm, "validation results");
    }
    L.sh_opt_free(opt); L.neuralnet_free(nn);
}
// many samples and long lists of metrics: metrics of small integers, whose sums are exact
static std::vector<std::atomic<int>> g_seen; static std::vector<float> g_first; static int g_nA; static std::atomic<long> g_wrong; static long g_tot;
static int small_value(int k, int id) { return (int) (mix((uint64_t) id * 64 + k) % 13) - 3; }
template <int K> static float smallmetric(const int n, const float *p, const float *t) {
    int id = (int) t[0]; if (id < 0 || id >= g_tot || n != 1) { g_wrong++; return 0; }
    g_seen[(size_t) K * g_tot + id]++; if (!(std::fabs(p[0] - g_first[id]) <= 1e-3f * (1 + std::fabs(g_first[id])))) g_wrong++;
    return (float) small_value(K, id);
}
static metric_f SMALL[] = {smallmetric<0>, smallmetric<1>, smallmetric<2>, smallmetric<3>, smallmetric<4>, smallmetric<5>, smallmetric<6>, smallmetric<7>};
static void many(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    bool longlist = c.flip(); int N = longlist ? 1 + (int) c.small(40) : (int) gen_large(c, 3000, 400000), V = c.chance(60) ? longlist ? 1 + (int) c.small(40) : (int) gen_large(c, 100, 200000) : 0;
    int nm = longlist ? (int) gen_large(c, 7, 700) : 1 + (int) c.draw(3), threads = 1 + (int) c.draw(4), B = longlist ? 5 : N / (1 + (int) c.draw(3)) + 1;
    bool epoch = V > 0 || c.flip();
    Net n; n.sizes = {2, 1}; n.acts = {"linear"}; n.w.emplace_back(2); n.b.emplace_back(1); Rng r(c.seed64());
    for (float &v : n.w[0]) v = (float) r.sym(); n.b[0][0] = (float) r.sym();
    g_tot = N + V; g_seen = std::vector<std::atomic<int>>((size_t) 8 * g_tot); g_first.assign(g_tot, 0); g_wrong = 0;
    std::vector<float> X(2 * g_tot), Y(g_tot); for (float &v : X) v = (float) r.sym();
    for (long i = 0; i < g_tot; i++) { Y[i] = (float) i; g_first[i] = X[2 * i] * n.w[0][0] + X[2 * i + 1] * n.w[0][1] + n.b[0][0]; }
    std::vector<int> which; std::vector<metric_f> ms; int times[8] = {0}; for (int k = 0; k < nm; k++) { which.push_back((int) r.below(8)); times[which.back()]++; ms.push_back(SMALL[which.back()]); } ms.push_back(nullptr);
    c.note("%s samples=%d valid=%d metrics=%d threads=%d B=%d%s", L.name.c_str(), N, V, nm, threads, B, epoch ? " epoch" : ""); c.nontrivial(); c.label(N > 65536 ? "over 65536 samples" : N > 3000 ? "over 3000 samples" : nm > 256 ? "over 256 metrics" : "long list of metrics");
    L.sh_threads(threads);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network"); L.neuralnet_set_loss(nn, "mse");
    Buf R(nm * (V ? 2 : 1), 0, c.flip()); for (size_t i = 0; i < R.n; i++) R[i] = 1e20f;
    if (epoch) {
        float s[8] = {0};                                        // a learning rate of nothing
        opt_t *opt = L.sh_opt_new(0, nn, 15, B, c.flip(), ms.data(), om::noprogress, 1, s); CHECK(c, opt, "no optimizer");
        L.optimizer_run_epoch(opt, N, X.data(), Y.data(), V, V ? &X[2 * (size_t) N] : nullptr, V ? &Y[N] : nullptr, R.p); L.sh_opt_free(opt);
        CHECK(c, unchanged(L, nn, n), "learning with rate 0 changed the network");
    } else L.evaluate(nn, N, X.data(), Y.data(), ms.data(), R.p);
    CHECK(c, R.intact(), "%s: wrote beyond the %zu results", L.name.c_str(), R.n);
    CHECK(c, g_wrong == 0, "%s: %ld metric values were taken with a wrong target, length or prediction", L.name.c_str(), (long) g_wrong);
    for (int k = 0; k < 8; k++) if (times[k]) for (long i = 0; i < g_tot; i++) CHECK(c, g_seen[(size_t) k * g_tot + i] >= 1, "%s: metric %d was not taken of sample %ld of %ld (%d in training)", L.name.c_str(), k, i, g_tot, N);
    for (int part = 0; part < (V ? 2 : 1); part++) {
        int from = part ? N : 0, cnt = part ? V : N; double sum[8] = {0}; for (int k = 0; k < 8; k++) if (times[k]) for (int i = from; i < from + cnt; i++) sum[k] += small_value(k, i);
        for (int k = 0; k < nm; k++) { double w = sum[which[k]] / cnt; CHECK(c, std::fabs(R[part * nm + k] - w) <= 4 * U * std::fabs(w), "%s: metric %d of %d over %d %s samples is %.9g instead of %.9g", L.name.c_str(), k, nm, cnt, part ? "validation" : "training", R[part * nm + k], w); }
    }
    L.neuralnet_free(nn);
}
static std::atomic<long> g_hcalls;
static float pred_metric(const int, const float *p, const float *) { g_hcalls++; return p[0]; }
// more than INT_MAX input values (virtual memory that repeats)
static void huge(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    const int W = 1 << 15, P = 128; long ns = (1l << 31) / W + (long) c.range(1, 3000);
    Net n; n.sizes = {W, 1}; n.acts = {"linear"}; n.w.emplace_back(W); n.b.emplace_back(1);
    Rng r(c.seed64()); for (float &v : n.w[0]) v = (float) r.sym();
    Repeated X((size_t) ns * W, (size_t) P * W); std::vector<float> Y(ns, 0.0f);
    for (long i = 0; i < (long) P * W; i++) X.p[i] = (float) r.sym();
    c.note("%s %s samples=%ld", L.name.c_str(), n.str().c_str(), ns); c.nontrivial();
    L.sh_threads(2);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    metric_f ms[] = {pred_metric, nullptr}; float res[2] = {-1, -77}, one; double sum = 0, mag = 0;
    g_hcalls = 0;
    L.evaluate(nn, (int) ns, X.p, Y.data(), ms, res);
    for (int i = 0; i < P; i++) { L.neuralnet_predict(nn, X.p + (size_t) i * W, &one); long k = ns / P + (i < ns % P); sum += (double) one * k; mag += std::fabs((double) one) * k; }
    CHECK(c, g_hcalls == ns, "%s: %ld metric values for %ld samples", L.name.c_str(), (long) g_hcalls, ns);
    CHECK(c, std::fabs(res[0] - sum / ns) <= 1e-6 * (1 + mag / ns), "%s: the mean over %ld samples is %.9g instead of %.9g", L.name.c_str(), ns, res[0], sum / ns);
    CHECK(c, res[1] == -77, "wrote beyond the results");
    L.neuralnet_free(nn);
}
static float target_metric(const int, const float *, const float *t) { return t[0]; }
static float one_metric(const int, const float *, const float *) { return 1.0f; }
// tens of millions of samples: more than a float can count
static void millions(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    const int P = 4096; long ns = (1l << 25) + (long) c.range(1, 1 << 25); int threads = 1 + (int) c.draw(1);
    Net n; n.sizes = {1, 1}; n.acts = {"linear"}; n.w.emplace_back(1, 0.5f); n.b.emplace_back(1, 0.25f);
    Repeated X(ns, P), Y(ns, P); Rng r(c.seed64()); int base = 1 + (int) c.draw(3), range = 1 + (int) c.draw(40);
    for (int i = 0; i < P; i++) { X.p[i] = (float) r.sym(); Y.p[i] = (float) (base + (int) r.below(range)); }
    c.note("%s samples=%ld values %d..%d threads=%d", L.name.c_str(), ns, base, base + range - 1, threads); c.nontrivial();
    L.sh_threads(threads);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    metric_f ms[] = {target_metric, one_metric, nullptr}; float res[3] = {-1, -1, -77}; double sum = 0;
    L.evaluate(nn, (int) ns, X.p, Y.p, ms, res);
    for (int i = 0; i < P; i++) sum += (double) Y.p[i] * (ns / P + (i < ns % P));
    CHECK(c, std::fabs(res[0] - sum / ns) <= 4 * U * sum / ns, "%s: the mean over %ld samples is %.9g instead of %.9g", L.name.c_str(), ns, res[0], sum / ns);
    CHECK(c, res[1] == 1.0f, "%s: the mean of %ld ones is %.9g", L.name.c_str(), ns, res[1]);
    CHECK(c, res[2] == -77, "wrote beyond the results");
    L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs();
    return main_("P07", {{"evaluate", evaluate_, 40000, 600000}, {"own_metrics", own, 30000, 400000}, {"epoch", epoch, 40000, 600000}, {"many", many, 600, 12000}, {"huge", huge, 2, 40, 120, 2}, {"millions", millions, 4, 120, 120, 3}},
                 "random networks, data sets, metric lists (built-in and recording ones with known values per sample), with and without validation, thread counts, every build; non-trivial: more than one sample", argc, argv);
}
