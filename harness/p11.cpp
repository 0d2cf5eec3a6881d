// P11 - threads
#include "optmodel.hpp"
#include "alignheap.hpp"
#include <thread>
#include <atomic>
#include <unistd.h>
using namespace pbt;
// the C library and libzip are not instrumented: glibc's own lock around its time zone data is not seen
extern "C" const char *__tsan_default_suppressions() { return "race:tzset_internal\nrace:__tz_convert\nrace:tzfile\ncalled_from_lib:libzip.so\n"; }
using ref::Ball; using ref::U; using ref::TINY;
static bool g_tsan = false;

// ---- 1: every number of OpenMP threads gives the values of the reference ----
static void threads_(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 3; o.maxsize = 24; o.softmax_hidden = false; o.wscale = 0.8;
    Net n = gen_any(c, o, 30000, 3); std::string loss = om::gen_loss(c, n);
    int mx = n.np() < 500 && c.chance(5) ? 3000 : n.np() > 5000 ? 40 : 100;
    int ns = 1 + (int) c.small(mx), t1 = 1, t2 = c.chance(2) ? (int) c.range(32, 200) : 2 + (int) c.draw(c.chance(20) ? 30 : 7), B = 1 + (int) c.small(mx);
    om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), loss);
    c.note("%s %s loss=%s n=%d B=%d threads=%d", L.name.c_str(), n.str().c_str(), loss.c_str(), ns, B, t2); c.nontrivial(); c.label(t2 > 32 ? "threads over 32" : t2 > 8 ? "threads over 8" : "threads %d", t2);
    std::vector<std::vector<float>> pred(2), ev(2), grad(2);
    for (int k = 0; k < 2; k++) {
        L.sh_threads(k ? t2 : t1);
        nn_t *nn;
        { nn_t *m = make(L, n); CHECK(c, m, "no network"); nn = m; }
        L.neuralnet_set_loss(nn, loss.c_str());
        pred[k].assign((size_t) ns * n.nout(), -1); L.neuralnet_predict_batch(nn, ns, d.X.data(), pred[k].data());
        metric_f ms[4] = {L.get_metric_func("mean_squared_error"), L.get_metric_func("mae"), L.get_metric_func(loss.c_str()), nullptr};
        ev[k].assign(3, -1); L.evaluate(nn, ns, d.X.data(), d.Y.data(), ms, ev[k].data());
        // one batch of gradients through an optimizer that is the identity: p - 0.5 g
        opt_t *opt = L.sh_plain_new(nn, B, 0, ms, nullptr); float res[4];
        if (L.sh_set_batch_hook) {
            static std::vector<float> first; first.clear();
            L.sh_set_batch_hook([](unsigned, unsigned from, unsigned, const float *g, unsigned np) { if (from == 0) first.assign(g, g + np); });
            L.optimizer_run_epoch(opt, ns, d.X.data(), d.Y.data(), 0, nullptr, nullptr, res);
            L.sh_set_batch_hook(nullptr); grad[k] = first;
        }
        L.sh_opt_free(opt); L.neuralnet_free(nn);
    }
    for (int i = 0; i < ns; i++) { ref::Trace t = ref::forward(n, &d.X[(size_t) i * d.nin]); if (!t.sane) c.discard();
        for (int j = 0; j < n.nout(); j++) { size_t q = (size_t) i * n.nout() + j; CHECK(c, ref::inside(pred[0][q], t.a.back()[j]) && ref::inside(pred[1][q], t.a.back()[j]), "%s: prediction %d of sample %d is %.9g with one thread and %.9g with %d", L.name.c_str(), j, i, pred[0][q], pred[1][q], t2); } }
    for (int k = 0; k < 3; k++) if (std::fabs(ev[0][k]) < 1e30) { double tol = 1e-4 * (1 + std::fabs(ev[0][k])); CHECK(c, std::fabs((double) ev[0][k] - ev[1][k]) <= tol, "%s: metric %d is %.9g with one thread and %.9g with %d (%d samples)", L.name.c_str(), k, ev[0][k], ev[1][k], t2, ns); }
    // the first batch gradient
    nn_t *s = make(L, n); L.neuralnet_set_loss(s, loss.c_str()); L.sh_threads(1);
    std::vector<int> ids; for (int i = 0; i < std::min(B, ns); i++) ids.push_back(i);
    auto g = om::mean_gradient(L, s, n, n.flat(), d, ids); bool sane = true; for (auto &x : g) if (!x.sane() || std::fabs(x.c) > 1e15) sane = false;
    if (sane && !grad[0].empty()) for (int k = 0; k < 2; k++) for (size_t q = 0; q < g.size(); q++) CHECK(c, ref::inside(grad[k][q], ref::widen(g[q], 4 * U), 2), "%s: with %d threads gradient element %zu of a batch of %zu is %.9g, the mean over its samples is %.9g +- %.3g", L.name.c_str(), k ? t2 : t1, q, ids.size(), grad[k][q], g[q].c, g[q].r);
    L.neuralnet_free(s);
}
static void training(Case &c) { const Lib &L = libs()[c.draw(libs().size() - 1)]; om::lockstep(c, L, 400, 3, 2 + (int) c.draw(6)); }

// ---- 2: concurrent callers; functions called from inside the library are made to overlap ----
static std::atomic<long> g_events; static int g_mode; static std::atomic<int> g_running;
static thread_local uint64_t t_rng = 88172645463325252ull; static thread_local bool t_in = false;
static void disturb() {
    if (!t_in) return;
    t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
    long mine = ++g_events;
    switch (g_mode) {
    case 0: break;
    case 1: if (t_rng % 2) sched_yield(); break;
    case 2: for (volatile int i = 0, k = (int) (t_rng % 3000); i < k; i++) {} break;
    default: { double t0 = now(); while (g_running > 1 && g_events < mine + 1 + (long) (t_rng % 3) && now() - t0 < 0.0005) sched_yield(); }    // until others got here, too
    }
}
static act_f g_base[8]; static loss_f g_lbase[8];
template <int K> static void wrapped(const int n, float *a) { disturb(); g_base[K](n, a); disturb(); }
static act_f W[8] = {wrapped<0>, wrapped<1>, wrapped<2>, wrapped<3>, wrapped<4>, wrapped<5>, wrapped<6>, wrapped<7>};
static void wloss(unsigned n, const float *p, const float *t, float *l) { disturb(); g_lbase[0](n, p, t, l); disturb(); }

struct Al { const Lib &L; float *p; size_t n; Al(const Lib &l, size_t k) : L(l), p(l.sh_malloc(k * 4 + 64)), n(k) {} ~Al() { L.sh_free(p); } };
struct World { const Lib &L; std::vector<Net> nets; std::vector<nn_t *> nn; std::vector<om::Data> d; std::vector<std::string> loss; };
struct Op { int kind, net, arg; };
// all buffers are aligned, so that equal calls give equal bits
static std::vector<float> perform(World &w, const Op &o, int tid) {
    const Lib &L = w.L; const Net &n = w.nets[o.net]; om::Data &d = w.d[o.net]; nn_t *nn = w.nn[o.net];
    int i = o.arg % d.n; std::vector<float> out;
    switch (o.kind) {
    case 0: { Al y(L, n.nout()), x(L, n.nin()); memcpy(x.p, &d.X[(size_t) i * d.nin], n.nin() * 4); L.neuralnet_predict(nn, x.p, y.p); out.assign(y.p, y.p + n.nout()); break; }
    case 1: { Al g(L, n.np()), x(L, n.nin()), t(L, n.nout()); memcpy(x.p, &d.X[(size_t) i * d.nin], n.nin() * 4); memcpy(t.p, &d.Y[(size_t) i * d.nout], n.nout() * 4); L.neuralnet_backpropagation(nn, x.p, t.p, g.p); out.assign(g.p, g.p + n.np()); break; }
    case 2: { int k = 1 + o.arg % d.n; Al x(L, (size_t) k * n.nin()), y(L, (size_t) k * n.nout()); memcpy(x.p, d.X.data(), (size_t) k * n.nin() * 4); L.sh_threads(1); L.neuralnet_predict_batch(nn, k, x.p, y.p); out.assign(y.p, y.p + (size_t) k * n.nout()); break; }
    case 3: { L.sh_threads(1); metric_f ms[3] = {L.get_metric_func("mse"), L.get_metric_func("mae"), nullptr}; float r[2]; Al x(L, d.X.size()), y(L, d.Y.size()); memcpy(x.p, d.X.data(), d.X.size() * 4); memcpy(y.p, d.Y.data(), d.Y.size() * 4); L.evaluate(nn, d.n, x.p, y.p, ms, r); out.assign(r, r + 2); break; }
    case 4: {       // train a network of its own
        L.sh_threads(1);
        nn_t *m = make(L, n); L.neuralnet_set_loss(m, w.loss[o.net].c_str()); float set[8] = {0.05f, 0.01f, 0.5f, 1, 0.8f, 0.8f, 0.9f, 0.01f}, res[2];
        opt_t *opt = L.sh_opt_new(o.arg % 4, m, 11, 1 + o.arg % 5, 0, nullptr, nullptr, 255, set);
        Al x(L, d.X.size()), y(L, d.Y.size()); memcpy(x.p, d.X.data(), d.X.size() * 4); memcpy(y.p, d.Y.data(), d.Y.size() * 4);
        for (int e = 0; e < 2; e++) L.optimizer_run_epoch(opt, d.n, x.p, y.p, 0, nullptr, nullptr, res);
        out = params(L, m); out.push_back(res[0]); L.sh_opt_free(opt); L.neuralnet_free(m); break; }
    case 5: {       // a network of its own through a file
        nn_t *m = make(L, n); char f[64]; snprintf(f, sizeof f, "m%d.npz", tid); L.neuralnet_save(m, "%s", f); L.neuralnet_free(m);
        m = L.neuralnet_load(f); if (!m) { out = {-12345}; break; } out = params(L, m); Al y(L, n.nout()), x(L, n.nin()); memcpy(x.p, d.X.data(), n.nin() * 4); L.neuralnet_predict(m, x.p, y.p); out.insert(out.end(), y.p, y.p + n.nout()); L.neuralnet_free(m); break; }
    default: { Al p(L, n.np()); L.neuralnet_get_parameters(nn, p.p); out.assign(p.p, p.p + n.np()); }
    }
    return out;
}
static bool eq(const std::vector<float> &a, const std::vector<float> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], 4) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
static void concurrent(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Scratch scratch;
    World w{L}; int k = 1 + (int) c.draw(1), T = 2 + (int) c.draw(c.chance(20) ? 6 : 2), nops = 1 + (int) c.draw(7);
    int wi = 0; g_mode = (int) c.draw(3); L.sh_threads(1);
    c.note("%s %d threads, mode %d:", L.name.c_str(), T, g_mode);
    for (int i = 0; i < k; i++) {
        NetOpt o; o.maxl = 3; o.maxsize = 20; o.softmax_hidden = false; o.wscale = 0.7; Net n = gen_any(c, o, 30000, 4); if (n.L() == 1 && c.flip()) n = gen_net(c, o);
        std::string loss = om::gen_loss(c, n); w.nets.push_back(n); w.loss.push_back(loss); w.d.push_back(om::gen_data(c, 1 + (int) c.small(20), n.nin(), n.nout(), loss));
        nn_t *nn = make(L, n); CHECK(c, nn, "no network"); L.neuralnet_set_loss(nn, loss.c_str());
        for (int l = 0; l < n.L() && wi < 8; l++) { if (L.blas && n.acts[l] == "softmax") continue; g_base[wi] = L.get_activation_func(n.acts[l].c_str()); L.sh_set_act(nn, l, W[wi]); wi++; }
        if (i == 0) { g_lbase[0] = L.sh_get_loss(nn); L.sh_set_loss_fn(nn, wloss); }
        w.nn.push_back(nn); c.note(" %s", n.str().c_str());
    }
    std::vector<std::vector<Op>> ops(T); std::vector<std::vector<std::vector<float>>> want(T), got(T);
    for (int t = 0; t < T; t++) for (int i = 0; i < nops; i++) ops[t].push_back({c.chance(80) ? (int) c.draw(1) : (int) c.draw(6), (int) c.draw(k - 1), (int) c.draw(1000)});
    for (int t = 0; t < T; t++) { for (auto &o : ops[t]) { want[t].push_back(perform(w, o, t)); } }
    for (int t = 0; t < T; t++) for (size_t i = 0; i < ops[t].size(); i++) CHECK(c, eq(want[t][i], perform(w, ops[t][i], t)), "%s: repeating operation %d gives another result", L.name.c_str(), ops[t][i].kind);
    g_running = T; g_events = 0; std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        t_rng += 0x9e3779b97f4a7c15ull * (t + 1); t_in = true; L.sh_threads(1);
        ready++; while (ready < T) sched_yield();
        for (auto &o : ops[t]) got[t].push_back(perform(w, o, t));
        g_running--;
    });
    for (auto &x : th) x.join();
    c.nontrivial(); c.label("mode %d", g_mode); c.label("variant %s", L.name.c_str());
    static const char *N[] = {"prediction", "gradient", "batch prediction", "evaluation", "training of a network of its own", "saving and loading a network of its own", "parameters"};
    for (int t = 0; t < T; t++) for (size_t i = 0; i < ops[t].size(); i++)
        CHECK(c, eq(want[t][i], got[t][i]), "%s: %s (network %s) gives another result while %d other threads use the library", L.name.c_str(), N[ops[t][i].kind], w.nets[ops[t][i].net].str().c_str(), T - 1);
    for (int i = 0; i < k; i++) CHECK(c, unchanged(L, w.nn[i], w.nets[i]), "a network changed");
}
// ---- 3: concurrent callers whose calls use several OpenMP threads themselves ----
static void nested(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 3; o.maxsize = 16; o.wscale = 0.7; Net n = gen_any(c, o, 30000, 3);
    int ns = 2 + (int) c.small(60), T = 2 + (int) c.draw(2);
    om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), "mse");
    nn_t *nn = make(L, n); CHECK(c, nn, "no network");
    c.note("%s %s n=%d, %d callers", L.name.c_str(), n.str().c_str(), ns, T); c.nontrivial();
    std::vector<ref::Trace> tr; for (int i = 0; i < ns; i++) { tr.push_back(ref::forward(n, &d.X[(size_t) i * d.nin])); if (!tr.back().sane) c.discard(); }
    metric_f mse = L.get_metric_func("mse"); float ev0[1]; { metric_f ms[2] = {mse, nullptr}; L.sh_threads(1); L.evaluate(nn, ns, d.X.data(), d.Y.data(), ms, ev0); }
    std::vector<std::vector<float>> y(T), e(T); std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { L.sh_threads(2 + t % 3); for (int k = 0; k < 3; k++) { y[t].assign((size_t) ns * n.nout(), -1); L.neuralnet_predict_batch(nn, ns, d.X.data(), y[t].data()); metric_f ms[2] = {mse, nullptr}; e[t].assign(1, -1); L.evaluate(nn, ns, d.X.data(), d.Y.data(), ms, e[t].data()); } });
    for (auto &x : th) x.join();
    for (int t = 0; t < T; t++) {
        for (int i = 0; i < ns; i++) for (int j = 0; j < n.nout(); j++) CHECK(c, ref::inside(y[t][(size_t) i * n.nout() + j], tr[i].a.back()[j]), "%s: caller %d: sample %d output %d is %.9g instead of %.9g", L.name.c_str(), t, i, j, y[t][(size_t) i * n.nout() + j], tr[i].a.back()[j].c);
        CHECK(c, std::isnan(ev0[0]) || std::isinf(ev0[0]) || std::fabs((double) e[t][0] - ev0[0]) <= 1e-4 * (1e-6 + std::fabs(ev0[0])), "%s: caller %d: evaluation %.9g instead of %.9g", L.name.c_str(), t, e[t][0], ev0[0]);
    }
    L.neuralnet_free(nn);
}
// ---- 4: repetition ----
static void __attribute__((noinline)) dirty(int v) { volatile char b[60000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char) v; }
static void repeat(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 4; o.maxsize = 40; o.softmax_hidden = false; Net n = gen_any(c, o, 30000); std::string loss = om::gen_loss(c, n);
    int ns = 1 + (int) c.small(20); om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), loss);
    Buf x(d.X.size(), (int) c.draw(15), false), y1(n.nout(), (int) c.draw(15), false), yb((size_t) ns * n.nout(), (int) c.draw(15), false); memcpy(x.p, d.X.data(), d.X.size() * 4);
    float *g = L.sh_malloc(n.np() * 4 + 64); L.sh_threads(1 + (int) c.draw(3));
    nn_t *nn = make(L, n); CHECK(c, nn, "no network"); L.neuralnet_set_loss(nn, loss.c_str());
    c.note("%s %s %s n=%d", L.name.c_str(), n.str().c_str(), loss.c_str(), ns); c.nontrivial();
    std::vector<float> a, b, q;
    static const int V[] = {0, 0xff, 0x7f, 0x41};
    for (int k = 0; k < 4; k++) {
        for (size_t i = 0; i < y1.n; i++) y1[i] = k ? NAN : 7; for (size_t i = 0; i < yb.n; i++) yb[i] = k % 2 ? INFINITY : -3; for (size_t i = 0; i < n.np(); i++) g[i] = k ? NAN : 0;
        dirty(V[k]); L.neuralnet_predict(nn, x.p, y1.p); dirty(V[k]); L.neuralnet_predict_batch(nn, ns, x.p, yb.p); dirty(V[k]); L.neuralnet_backpropagation(nn, x.p, d.Y.data(), g);
        std::vector<float> a2(y1.p, y1.p + y1.n), b2(yb.p, yb.p + yb.n), q2(g, g + n.np());
        if (k) { CHECK(c, eq(a, a2), "%s: %s: repeating a prediction gives other bits", L.name.c_str(), n.str().c_str()); CHECK(c, eq(b, b2), "%s: %s: repeating a batch prediction of %d gives other bits", L.name.c_str(), n.str().c_str(), ns); CHECK(c, eq(q, q2), "%s: %s: repeating a gradient gives other bits", L.name.c_str(), n.str().c_str()); }
        a = a2; b = b2; q = q2;
    }
    L.sh_free(g); L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs(); const char *s = getenv("SAN"); g_tsan = s && *s;
    if (g_tsan) return main_("P11", {{"concurrent", concurrent, 6000, 100000, 60, 4}}, "the arm concurrent in a build with the thread sanitizer", argc, argv);
    return main_("P11", {{"threads", threads_, 12000, 200000}, {"training", training, 6000, 100000}, {"concurrent", concurrent, 12000, 200000, 60, 4}, {"nested", nested, 4000, 60000, 60, 4}, {"repeat", repeat, 24000, 400000}},
                 "1 versus 2..200 OpenMP threads against the reference (threads) and the optimizer model (training); 2..8 concurrent callers whose overlapping is forced by waiting in the activation and loss functions, results compared bit by bit with sequential ones (concurrent, also under the thread sanitizer); callers that use OpenMP threads (nested); repetition with dirty stack and buffers (repeat); all are non-trivial", argc, argv);
}
