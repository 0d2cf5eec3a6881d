// P08 - every epoch trains on every sample exactly once
#include "optmodel.hpp"
using namespace pbt;
using ref::Ball;

// the clock and thereby the random numbers are under our control
static long g_time = 1; static bool g_ctl = false; static Rng *g_trng;
extern "C" time_t time(time_t *t) { time_t v; if (g_ctl) v = g_trng ? (time_t) (g_trng->next() & 0x7fffffff) : g_time; else { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }

struct Prog { int x, n; size_t seen; };
static std::vector<Prog> g_prog;
static void rec_progress(int x, int n, const char *, ...) { g_prog.push_back({x, n, om::events.size()}); }
struct Batch { unsigned n, from, to; std::vector<float> g; std::vector<float> p; size_t seen; };
static std::vector<Batch> g_batches;
static void hook(unsigned n, unsigned from, unsigned to, const float *g, unsigned np) { g_batches.push_back({n, from, to, std::vector<float>(g, g + np), {}, om::events.size()}); }

static void epochs_(Case &c, bool large) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 2; o.maxsize = large ? 3 : 8; o.softmax_hidden = false; o.wscale = 0.5;
    bool widenet = large && c.chance(40);
    Net n = widenet ? gen_large_net(c, 8000, false, 0.5) : gen_net(c, o);
    std::string loss = om::gen_loss(c, n);
    const int MB = large && !widenet ? 2000 : 40, MN = widenet ? 16 : large ? 4000 : 60;
    int kind = (int) c.draw(4);                     // 4: custom optimizer through the public macro
    int threads = c.chance(60) ? 1 : 2 + (int) c.draw(2);
    int shuffle = c.flip(), B = 1 + (int) c.small(MB), prog = c.chance(80);
    g_trng = nullptr; g_ctl = true; g_time = (long) c.draw(0x7ffffffe) + 1;
    float v[8] = {0.01f}; if (c.flip()) v[2] = 0.5f; v[3] = c.flip();
    L.sh_threads(threads);
    nn_t *nn = make(L, n), *scratch = make(L, n); CHECK(c, nn && scratch, "no network");
    L.neuralnet_set_loss(nn, loss.c_str()); L.neuralnet_set_loss(scratch, loss.c_str());
    metric_f ms[2] = {L.get_metric_func("mean_squared_error"), nullptr};
    opt_t *opt = kind == 4 ? L.sh_plain_new(nn, B, shuffle, ms, prog ? rec_progress : nullptr) : L.sh_opt_new(kind, nn, 15, B, shuffle, ms, prog ? rec_progress : nullptr, kind < 2 ? 13 : 1, v);
    CHECK(c, opt, "no optimizer");
    L.sh_set_batch_hook(hook);
    int ne = 1 + (int) c.draw(large ? 1 : 4), ns = 1 + (int) (large && c.flip() ? c.draw(MN) : c.small(MN));
    const char *kn = kind == 4 ? "custom" : om::KIND[kind];
    c.note("%s %s %s loss=%s B=%d shuffle=%d threads=%d epochs=%d n=", L.name.c_str(), kn, n.str().c_str(), loss.c_str(), B, shuffle, threads, ne);
    c.label("%s", kn); c.label(shuffle ? "shuffled" : "in order"); c.label("threads %d", threads);
    for (int e = 0; e < ne; e++) {
        if (e && c.chance(30)) { ns = 1 + (int) c.small(MN); c.label("sample count changes"); }
        if (e && c.chance(10)) { B = 1 + (int) c.small(MB); L.sh_opt_set_batchsize(opt, B); }
        c.note("%d ", ns);
        if (ns > B) c.nontrivial();
        if (ns % B) c.label("partial last batch"); if (B > ns) c.label("batch larger than data");
        om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), loss);
        float res[4];
        om::record(L, nn, d.Y.data(), d.nout, ns, true);
        g_prog.clear(); g_batches.clear();
        L.optimizer_run_epoch(opt, ns, d.X.data(), d.Y.data(), 0, nullptr, nullptr, res);
        auto &ev = om::events;
        CHECK(c, (int) ev.size() == ns, "%s: %zu sample gradients were taken in an epoch of %d samples (batch size %d)", kn, ev.size(), ns, B);
        std::vector<int> cnt(ns);
        for (auto &x : ev) { CHECK(c, x.id >= 0, "%s: a target that does not exist was used", kn); cnt[x.id]++; }
        for (int i = 0; i < ns; i++) CHECK(c, cnt[i] == 1, "%s: epoch %d: sample %d of %d was used %d times (batch size %d, shuffle %d)", kn, e, i, ns, cnt[i], B, shuffle);
        // a run may diverge, but no step from usual parameters with a usual gradient leads to infinity
        std::vector<int> before; const std::vector<float> *at = nullptr;
        auto usual = [&](const std::vector<float> &now) {
            bool ok = true, finite = true; for (float f : now) { if (!(std::fabs(f) < 1e6)) ok = false; if (!std::isfinite(f)) finite = false; }
            if (ok) return;
            if (!finite && at) {
                L.sh_threads(1); double g = 0; for (auto &x : om::mean_gradient(L, scratch, n, *at, d, before)) g = x.mag() < 1e15 ? std::max(g, x.mag()) : 1e15;
                CHECK(c, g >= 1e15, "%s: a parameter is not finite after a batch of %zu samples with gradients up to %.3g", kn, before.size(), g);
            }
            c.discard();
        };
        for (int i = 0; i < ns; i += B) {
            int k = std::min(B, ns - i);
            usual(ev[i].params); at = &ev[i].params; before.clear(); for (int j = i; j < i + k; j++) before.push_back(ev[j].id);
            std::vector<int> ids;
            for (int j = i; j < i + k; j++) {
                ids.push_back(ev[j].id);
                CHECK(c, same_bits(ev[j].params, ev[i].params), "%s: the parameters changed within a batch (sample %d, batch of %d from %d)", kn, j, k, i);
            }
            if (!shuffle) { std::vector<int> s = ids; std::sort(s.begin(), s.end()); for (int j = 0; j < k; j++) CHECK(c, s[j] == i + j, "%s: without shuffling, epoch %d batch from %d holds sample %d at %d", kn, e, i, ids[j], i + j); }
            // the prediction that goes with the target is that of the sample's own input
            Net now = n; now.set_flat(ev[i].params);
            for (int j = i; j < i + k; j++) { ref::Trace t = ref::forward(now, &d.X[(size_t) ev[j].id * d.nin]); if (!t.sane) c.discard();
                for (int q = 0; q < d.nout; q++) CHECK(c, ref::inside(ev[j].pred[q], t.a.back()[q]), "%s: the prediction %.9g compared with the target of sample %d is not of its input (%.9g)", kn, ev[j].pred[q], ev[j].id, t.a.back()[q].c); }
            if (kind == 4) {
                size_t b = i / B; CHECK(c, b < g_batches.size(), "only %zu batches", g_batches.size());
                Batch &bt = g_batches[b];
                CHECK(c, (int) bt.from == i && (int) bt.to == i + k, "batch %zu covers samples %u to %u instead of %d to %d", b, bt.from, bt.to, i, i + k);
                L.sh_threads(1);
                auto g = om::mean_gradient(L, scratch, n, ev[i].params, d, ids); for (auto &x : g) if (!x.sane() || std::fabs(x.c) > 1e15) c.discard();
                for (size_t q = 0; q < g.size(); q++) CHECK(c, ref::inside(bt.g[q], ref::widen(g[q], 4 * ref::U), 2), "%s: gradient element %zu of a batch of %d is %.9g, the mean over its samples is %.9g +- %.3g", L.name.c_str(), q, k, bt.g[q], g[q].c, g[q].r);
                L.sh_threads(threads);
            }
        }
        usual(params(L, nn));
        if (prog) {
            int nb = (ns + B - 1) / B;
            CHECK(c, (int) g_prog.size() == nb, "%s: %zu progress reports for %d batches (n=%d B=%d)", kn, g_prog.size(), nb, ns, B);
            for (int b = 0; b < nb; b++) {
                int x = std::min((b + 1) * B, ns);
                CHECK(c, g_prog[b].x == x && g_prog[b].n == ns && (int) g_prog[b].seen == x, "%s: progress report %d is %d of %d after %zu samples (n=%d B=%d)", kn, b, g_prog[b].x, g_prog[b].n, g_prog[b].seen, ns, B);
            }
        } else CHECK(c, g_prog.empty(), "progress was reported although it is off");
    }
    L.sh_opt_free(opt); L.neuralnet_free(nn); L.neuralnet_free(scratch);
}

static void epochs(Case &c) { epochs_(c, false); }
static void large(Case &c) { epochs_(c, true); }

// more than UINT_MAX input values (virtual memory that repeats)
static std::vector<unsigned char> g_cnt; static std::vector<float> g_one; static long g_bad; static float g_got, g_want; static long g_badid; static std::mutex g_hmx;
static void huge_loss(unsigned n, const float *p, const float *t, float *l) {
    long id = (long) t[0]; l[0] = 0;
    std::lock_guard<std::mutex> g(g_hmx);
    if (id < 0 || id >= (long) g_cnt.size()) { g_bad++; return; }
    g_cnt[id]++;
    float w = g_one[id % g_one.size()]; if (std::fabs(p[0] - w) > 1e-2f) { g_bad++; g_got = p[0]; g_want = w; g_badid = id; }
}
static void huge(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    const int W = 1 << 15, P = 128; long ns = (1l << 32) / W + (long) c.range(1, 3000);
    Net n; n.sizes = {W, 1}; n.acts = {"linear"}; n.w.emplace_back(W); n.b.emplace_back(1);
    Rng r(c.seed64()); for (float &v : n.w[0]) v = (float) r.sym();
    Repeated X((size_t) ns * W, (size_t) P * W); std::vector<float> Y(ns);
    for (long i = 0; i < (long) P * W; i++) X.p[i] = (float) r.sym();
    for (long i = 0; i < ns; i++) Y[i] = (float) i;
    int shuffle = c.flip();
    c.note("%s %s samples=%ld shuffle=%d", L.name.c_str(), n.str().c_str(), ns, shuffle); c.nontrivial();
    L.sh_threads(2);
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    L.neuralnet_set_loss(nn, "mse");
    metric_f ms[2] = {L.get_metric_func("mse"), nullptr}; float res[4];
    opt_t *opt = L.sh_plain_new(nn, (int) ns, shuffle, ms, nullptr);
    g_one.resize(P); for (int i = 0; i < P; i++) L.neuralnet_predict(nn, X.p + (size_t) i * W, &g_one[i]);
    g_cnt.assign(ns, 0); g_bad = 0; L.sh_set_loss_fn(nn, huge_loss);
    L.optimizer_run_epoch(opt, (unsigned) ns, X.p, Y.data(), 0, nullptr, nullptr, res);
    CHECK(c, g_bad == 0, "%s: %ld of %ld samples were trained with inputs of another sample (sample %ld: prediction %.9g instead of %.9g)", L.name.c_str(), g_bad, ns, g_badid, g_got, g_want);
    for (long i = 0; i < ns; i++) CHECK(c, g_cnt[i] == 1, "%s: sample %ld of %ld was used %d times", L.name.c_str(), i, ns, g_cnt[i]);
    L.sh_opt_free(opt); L.neuralnet_free(nn);
}
// ---- randomness of the order ----
struct Orders { const Lib &L; nn_t *nn; int ns; om::Data d; };
static double chi_z(const std::vector<long> &cnt, double expect) {   // normal approximation of the chi-square statistic
    double x = 0; for (long k : cnt) x += (k - expect) * (k - expect) / expect;
    double dof = cnt.size() - 1;
    double q = std::cbrt(x / dof);                                   // Wilson-Hilferty
    return (q - (1 - 2 / (9 * dof))) / std::sqrt(2 / (9 * dof));
}
static void order(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    int kind = (int) c.draw(4), mode = (int) c.draw(2);      // 0: all orders of few samples; 1: positions of many samples; 2: first epochs of fresh optimizers
    int ns = mode == 1 ? (int) c.range(6, 40) : (int) c.range(2, 5);
    int B = 1 + (int) c.small(6);
    bool stopped = mode != 2 && c.flip();                    // all within one second
    Rng tr(c.seed64()); g_trng = stopped ? nullptr : &tr; g_ctl = true; g_time = (long) c.draw(0x7ffffffe) + 1;
    L.sh_threads(1);
    Net n; n.sizes = {1, 1}; n.acts = {"linear"}; n.w = {{0.5f}}; n.b = {{0.25f}};
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, "mse");
    om::Data d = om::gen_data(c, ns, 1, 1, "mse"); for (float &x : d.X) x = 0.5f;
    metric_f ms[2] = {L.get_metric_func("mse"), nullptr};
    float v[8] = {1e-6f}, res[2];
    auto mk = [&]() { return kind == 4 ? L.sh_plain_new(nn, B, 1, ms, nullptr) : L.sh_opt_new(kind, nn, 15, B, 1, ms, nullptr, 1, v); };
    long N = mode == 1 ? 3000 : 12000; if (mode == 1) N = std::max(N, 8l * ns);
    c.note("%s kind %d mode %d n=%d B=%d epochs=%ld%s", L.name.c_str(), kind, mode, ns, B, N, stopped ? " within one second" : ""); c.nontrivial(); c.label("mode %d", mode);
    opt_t *opt = mk();
    long fact = 1; for (int i = 2; i <= ns && i < 7; i++) fact *= i;
    std::vector<long> perm(mode == 1 ? 1 : fact), rel(mode == 1 ? 1 : fact), pos(mode == 1 ? (size_t) ns * ns : 1); long same = 0;
    std::vector<int> prev;
    for (long e = 0; e < N; e++) {
        if (mode == 2) { L.sh_opt_free(opt); opt = mk(); }
        om::record(L, nn, d.Y.data(), 1, ns, false);
        L.optimizer_run_epoch(opt, ns, d.X.data(), d.Y.data(), 0, nullptr, nullptr, res);
        CHECK(c, (int) om::events.size() == ns, "%zu samples in an epoch of %d", om::events.size(), ns);
        std::vector<int> p; for (auto &x : om::events) p.push_back(x.id);
        put(L, nn, n);
        auto rank = [&](std::vector<int> q) { long r = 0; for (int i = 0; i < ns; i++) { int k = 0; for (int j = i + 1; j < ns; j++) if (q[j] < q[i]) k++; r = r * (ns - i) + k; } return r; };
        if (mode == 1) { for (int i = 0; i < ns; i++) pos[(size_t) i * ns + p[i]]++; }
        else {
            perm[rank(p)]++;
            if (!prev.empty()) { std::vector<int> inv(ns), q(ns); for (int i = 0; i < ns; i++) inv[prev[i]] = i; for (int i = 0; i < ns; i++) q[i] = inv[p[i]]; rel[rank(q)]++; }
        }
        if (p == prev) same++;
        prev = p;
    }
    L.sh_opt_free(opt); L.neuralnet_free(nn); g_trng = nullptr;
    if (mode == 1) {
        // one row fixed: each cell has expectation N/ns; the statistic has (ns-1)^2 degrees of freedom, scaled by (ns-1)/ns
        double e = (double) N / ns, x = 0; for (long k : pos) x += (k - e) * (k - e) / e;
        x *= (double) (ns - 1) / ns; double dof = (double) (ns - 1) * (ns - 1), q = std::cbrt(x / dof), z = (q - (1 - 2 / (9 * dof))) / std::sqrt(2 / (9 * dof));
        CHECK(c, z < 7, "the positions of %d samples over %ld epochs are not uniform (z = %.1f)", ns, N, z);
        CHECK(c, same <= 4 + N / 100, "the order of %d samples was the same as before in %ld of %ld epochs", ns, same, N);
    } else {
        double z = chi_z(perm, (double) N / fact), y = chi_z(rel, (double) (N - 1) / fact);
        CHECK(c, z < 7, "the orders of %d samples over %ld epochs are not uniform (z = %.1f)", ns, N, z);
        CHECK(c, y < 7, "the order of %d samples depends on that of the epoch before (z = %.1f)", ns, y);
    }
}
// many samples: each exactly once, and no trace of the previous order in blocks of samples
static std::vector<int> g_ids; static std::mutex g_imx;
static void id_loss(unsigned n, const float *p, const float *t, float *l) { l[0] = 0; std::lock_guard<std::mutex> g(g_imx); g_ids.push_back((int) t[0]); }
static void manysamples(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    int kind = (int) c.draw(4), ns = c.chance(60) ? (int) c.range(1000, 20000) : (int) c.range(20000, 300000), B = c.chance(30) ? 1 + (int) c.small(40) : c.chance(30) ? ns + (int) c.draw(100) - 50 : 1 + (int) c.draw(ns);
    Rng tr(c.seed64()); g_trng = &tr; g_ctl = true;
    int threads = c.chance(70) ? 1 : 3, ne = 1 + (int) c.draw(2);
    Net n; n.sizes = {1, 1}; n.acts = {"linear"}; n.w = {{0}}; n.b = {{0}};
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, "mse"); metric_f ms[2] = {L.get_metric_func("mse"), nullptr};
    std::vector<float> X(ns), Y(ns); for (int i = 0; i < ns; i++) Y[i] = (float) i;
    float v[8] = {0}, res[2]; L.sh_threads(threads);
    opt_t *opt = kind == 4 ? L.sh_plain_new(nn, B, 1, ms, nullptr) : L.sh_opt_new(kind, nn, 15, B, 1, ms, nullptr, 1, v);
    L.sh_set_loss_fn(nn, id_loss);
    c.note("%s kind %d n=%d B=%d threads=%d epochs=%d", L.name.c_str(), kind, ns, B, threads, ne); c.nontrivial(); c.label(ns > 65536 ? "over 65536 samples" : ns > 32768 ? "over 32768 samples" : "fewer samples");
    std::vector<int> prev(ns); for (int i = 0; i < ns; i++) prev[i] = i;       // position of a sample in the order before
    for (int e = 0; e < ne; e++) {
        g_ids.clear(); L.optimizer_run_epoch(opt, ns, X.data(), Y.data(), 0, nullptr, nullptr, res);
        CHECK(c, (int) g_ids.size() == ns, "%zu sample gradients were taken in an epoch of %d samples", g_ids.size(), ns);
        std::vector<int> cnt(ns), pos(ns);
        for (int i = 0; i < ns; i++) { int id = g_ids[i]; CHECK(c, id >= 0 && id < ns, "unknown sample %d", id); CHECK(c, !cnt[id]++, "sample %d of %d was used more than once", id, ns); pos[id] = i; }
        if (threads == 1 || B == 1) for (int other = 0; other < 2; other++) {  // blocks of positions against blocks of samples, and of their positions in the epoch before
            const int K = 16; std::vector<double> t(K * K), row(K), col(K);
            for (int i = 0; i < ns; i++) { int a = (int) ((long) pos[i] * K / ns), b = (int) ((long) (other ? prev[i] : i) * K / ns); t[a * K + b]++; row[a]++; col[b]++; }
            double x = 0; for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) { double w = row[a] * col[b] / ns; x += (t[a * K + b] - w) * (t[a * K + b] - w) / w; }
            double dof = (K - 1) * (K - 1), q = std::cbrt(x / dof), z = (q - (1 - 2 / (9 * dof))) / std::sqrt(2 / (9 * dof));
            CHECK(c, z < 7, "%s: the positions of %d samples depend on %s (z = %.1f)", L.name.c_str(), ns, other ? "those in the epoch before" : "their numbers", z);
            long next = 0; for (int i = 1; i < ns; i++) if (other ? prev[g_ids[i]] == prev[g_ids[i - 1]] + 1 : g_ids[i] == g_ids[i - 1] + 1) next++;
            CHECK(c, next < 40, "%s: %ld of %d samples still follow their neighbour", L.name.c_str(), next, ns);
        }
        prev = pos;
    }
    L.sh_opt_free(opt); L.neuralnet_free(nn); g_trng = nullptr;
}
int main(int argc, char **argv) {
    libs();
    return main_("P08", {{"large", large, 5000, 80000, 90}, {"epochs", epochs, 60000, 800000}, {"order", order, 240, 3000}, {"manysamples", manysamples, 300, 20000}, {"huge", huge, 2, 20, 200, 2}},
                 "epochs: random optimizers, sample counts, batch sizes, shuffle and thread settings with a recording loss function and progress function; order: chi-square tests of the sample orders over thousands of epochs; non-trivial: more than one batch / always", argc, argv);
}
