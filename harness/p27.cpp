// P27 - what users write themselves (optimizers, callbacks, losses, metrics) works like what is built in
#include "optmodel.hpp"
#include <malloc.h>
#include <atomic>
using namespace pbt;

// the clock is under our control, so that two runs shuffle alike
static bool g_ctl = false;
extern "C" time_t time(time_t *t) { time_t v; if (g_ctl) v = 1; else { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }

struct Told { std::string what; void *self; int tag; const void *a, *b; long n; int flag; };
static std::vector<Told> told;
static void hook(const char *what, void *self, int tag, const void *a, const void *b, long n, int flag) { told.push_back({what, self, tag, a, b, n, flag}); }
static std::vector<std::pair<int, int>> prog;
static void my_progress(int x, int n, const char *, ...) { prog.push_back({x, n}); }

// a loss and metrics as a user would write them
static void my_mse(unsigned n, const float *p, const float *t, float *l) { for (unsigned i = 0; i < n; i++) l[i] = 2 * (p[i] - t[i]) / (float) n; }
static void my_mae(unsigned n, const float *p, const float *t, float *l) { for (unsigned i = 0; i < n; i++) l[i] = (p[i] > t[i] ? 1.0f : p[i] < t[i] ? -1.0f : 0.0f) / (float) n; }
static std::atomic<int> told_n{-1};          // what else than the number of outputs a metric was given
static int outputs = 0;
static float my_metric(const int n, const float *p, const float *t) { if (n != outputs) { told_n = n; return -7; } float s = 0; for (int i = 0; i < n; i++) s += (p[i] - t[i]) * (p[i] - t[i]); return s / (float) n; }
static float my_constant(const int n, const float *, const float *) { return (float) n; }

static const std::vector<std::string> SMOOTH = {"linear", "sigmoid", "tanh", "softplus", "softsign"};
static double close_enough(const std::vector<float> &a, const std::vector<float> &b) {     // the largest difference relative to the size of the values
    double m = 1e-3, d = 0;
    for (size_t i = 0; i < a.size(); i++) { m = std::max(m, std::fabs((double) b[i])); double x = std::fabs((double) a[i] - b[i]); if (!(x <= 1e30)) return 1e30; d = std::max(d, x); }
    return d / m;
}

// an optimizer of one's own next to the built-in one of the same rule
static void optimizer_(Case &c) {
    mallopt(M_PERTURB, 1 + (int) c.draw(254));      // fresh memory is not zero
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 3; o.maxsize = 9; o.acts = SMOOTH; o.softmax_hidden = false; o.wscale = 0.3;     // small steps on a smooth loss: two runs stay together
    Net n = gen_net(c, o);
    bool absolute = c.chance(20); std::string loss = absolute ? "mean_absolute_error" : "mean_squared_error";
    int own_loss = c.flip(), threads = 1 + (int) c.draw(3), gmask = (c.chance(80) ? 8 : 0) | (int) c.draw(7);
    int B = gmask & 1 ? 1 + (int) c.small(40) : 32, shuffle = gmask & 2 ? c.flip() : 1, epochs = (int) c.draw(4);
    float lr = 0.001f * (float) c.range(1, 20), mom = c.flip() ? 0 : 0.01f * (float) c.range(1, 60);
    int tag = (int) c.draw(1000), nm = gmask & 4 ? 1 + (int) c.draw(3) : 1;
    bool ask_progress = c.chance(70), valid_too = c.flip();
    nn_t *a = make(L, n), *b = make(L, n); CHECK(c, a && b, "no network");
    L.neuralnet_set_loss(a, loss.c_str()); L.neuralnet_set_loss(b, loss.c_str());
    std::vector<metric_f> ms, mb;
    for (int i = 0; i < nm; i++) { int k = (int) c.draw(4); if (k == 4) { ms.push_back(my_constant); mb.push_back(my_constant); continue; }
        ms.push_back(L.get_metric_func(k == 3 ? "mean_squared_error" : ref::METRICS[c.draw(2)].c_str())); mb.push_back(k == 3 ? my_metric : ms.back()); }
    ms.push_back(nullptr); mb.push_back(nullptr);
    metric_f def[2] = {L.get_metric_func(loss.c_str()), nullptr};
    outputs = n.nout(); told_n = -1;
    L.sh_user_hook(hook); told.clear(); prog.clear(); g_ctl = true; L.sh_threads(threads);
    c.note("%s %s %s lr=%g momentum=%g B=%d shuffle=%d settings=%d threads=%d own loss=%d epochs=%d", L.name.c_str(), n.str().c_str(), loss.c_str(), lr, mom, B, shuffle, gmask, threads, own_loss, epochs);
    float v[8] = {lr, 0, mom};
    opt_t *oa = L.sh_opt_new(0, a, gmask, B, shuffle, ms.data(), nullptr, 15, v);
    opt_t *ob = L.sh_own_new(b, gmask, B, shuffle, mb.data(), ask_progress ? my_progress : nullptr, lr, mom, tag);
    CHECK(c, oa && ob, "no optimizer");
    CHECK(c, L.sh_opt_nn(ob) == b, "the optimizer holds another network");
    CHECK(c, L.sh_opt_batchsize(ob) == B && L.sh_opt_shuffle(ob) == shuffle, "the optimizer has batch size %d and shuffle %d instead of %d and %d", L.sh_opt_batchsize(ob), L.sh_opt_shuffle(ob), B, shuffle);
    CHECK(c, L.sh_opt_progress(ob) == (gmask & 8 ? (ask_progress ? (void *) my_progress : nullptr) : (void *) L.progress_ascii), "the optimizer has another progress function");
    CHECK(c, L.sh_opt_n_metrics(ob) == nm, "the optimizer has %d metrics instead of %d", L.sh_opt_n_metrics(ob), nm);
    for (int i = 0; i < nm; i++) CHECK(c, L.sh_opt_metric(ob, i) == (void *) (gmask & 4 ? mb[i] : def[0]), "metric %d is not the one that was given", i);
    if (own_loss) { L.sh_set_loss_fn(b, absolute ? my_mae : my_mse); c.label("own loss"); }
    int ns = 1 + (int) c.small(80), nv = valid_too ? 1 + (int) c.small(30) : 0;
    for (int e = 0; e < epochs; e++) {
        if (e && c.chance(25)) ns = 1 + (int) c.small(80);
        std::vector<float> X((size_t) ns * n.nin()), Y((size_t) ns * n.nout()), VX((size_t) nv * n.nin()), VY((size_t) nv * n.nout());
        Rng r(c.seed64());
        for (auto *w : {&X, &Y, &VX, &VY}) for (auto &x : *w) x = 0.5f * (float) r.normal();
        std::vector<float> ra(2 * nm, -1), rb(2 * nm, -1);
        unsigned s = (unsigned) c.draw(1 << 20);
        srand(s); L.optimizer_run_epoch(oa, ns, X.data(), Y.data(), nv, nv ? VX.data() : nullptr, nv ? VY.data() : nullptr, ra.data());
        srand(s); told.clear(); prog.clear();
        L.optimizer_run_epoch(ob, ns, X.data(), Y.data(), nv, nv ? VX.data() : nullptr, nv ? VY.data() : nullptr, rb.data());
        int nb = (ns + B - 1) / B;
        if (nb > 1) c.nontrivial();
        CHECK(c, !told.empty() && told[0].what == "epoch" && told[0].self == ob && told[0].tag == tag && told[0].a == X.data() && told[0].b == Y.data() && told[0].n == ns, "the optimizer's epoch is not run with the training data (%d samples)", ns);
        CHECK(c, (int) told.size() == nb + 1, "an epoch of %d samples in batches of %d asks the optimizer for %zu batches", ns, B, told.size() - 1);
        for (int i = 0; i < nb; i++) CHECK(c, told[i + 1].what == "batch" && told[i + 1].n == i * B && told[i + 1].flag == std::min(B, ns - i * B), "batch %d starts at %ld and has %d samples", i, told[i + 1].n, told[i + 1].flag);
        CHECK(c, (int) prog.size() == (ask_progress && gmask & 8 ? nb : 0), "the progress function is called %zu times", prog.size());
        for (int i = 0; i < (int) prog.size(); i++) CHECK(c, prog[i] == std::make_pair(std::min((i + 1) * B, ns), ns), "progress %d of %d", prog[i].first, prog[i].second);
        auto pa = params(L, a), pb = params(L, b);
        bool sane = true; for (float x : pa) if (!(std::fabs(x) < 20)) sane = false; if (!sane) c.discard();
        double d = close_enough(pb, pa);
        if (absolute && d >= 1e-3) c.discard();             // the sign of a difference near zero is anybody's guess
        CHECK(c, d < 1e-3, "epoch %d: the parameters after an epoch of one's own optimizer differ by %.3g (relative) from those of the built-in one with the same rule", e, d);
        CHECK(c, told_n == -1, "epoch %d: a metric is told about %d outputs, the network has %d", e, (int) told_n, n.nout());
        if (gmask & 4) for (int i = 0; i < nm * (nv ? 2 : 1); i++) {
            float w = ra[i];
            if (mb[i % nm] == my_constant) CHECK(c, std::fabs(rb[i] - n.nout()) <= 1e-5 * n.nout(), "epoch %d: the mean of the constant %d is %.9g", e, n.nout(), rb[i]);
            CHECK(c, std::fabs(rb[i] - w) <= 2e-3 * std::max(1.0f, std::fabs(w)) || std::isnan(w) || ms[i % nm] == L.get_metric_func("mean_absolute_percentage_error"), "epoch %d: result %d is %.9g, with built-in pieces %.9g", e, i, rb[i], w);
        }
        for (int l = 0; l < n.L(); l++) { memcpy(L.sh_weight(b, l), L.sh_weight(a, l), (size_t) n.sizes[l] * n.sizes[l + 1] * 4); memcpy(L.sh_bias(b, l), L.sh_bias(a, l), n.sizes[l + 1] * 4); }
        if (!nv) for (int i = nm; i < 2 * nm; i++) CHECK(c, rb[i] == -1, "a result beyond the metrics was written");
    }
    told.clear();
    L.sh_opt_free(ob);
    CHECK(c, told.size() == 1 && told[0].what == "free" && told[0].self == ob && told[0].tag == tag, "freeing an optimizer calls its free function %zu times", told.size());
    L.sh_opt_free(oa); L.neuralnet_free(a); L.neuralnet_free(b);
    CHECK(c, told.size() == 1, "freeing another optimizer or the network calls the free function of this one");
    c.label("variant %s", L.name.c_str());
}

// callbacks of one's own among built-in ones
static void callbacks(Case &c) {
    mallopt(M_PERTURB, 1 + (int) c.draw(254));      // fresh memory is not zero
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Scratch scratch;
    Net n; n.sizes = {2, 1}; n.acts = {"linear"}; n.w = {{1, 2}}; n.b = {{3}};
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, "mse");
    int nm = 1 + (int) c.draw(4);
    std::vector<metric_f> ms; for (int i = 0; i < nm; i++) ms.push_back(c.flip() ? my_constant : L.get_metric_func(ref::METRICS[c.draw(6)].c_str())); ms.push_back(nullptr);
    opt_t *opt = c.flip() ? L.sh_opt_new((int) c.draw(3), nn, 4, 0, 0, ms.data(), nullptr, 0, nullptr) : L.sh_own_new(nn, 4, 0, 0, ms.data(), nullptr, 0.1f, 0, 7);
    CHECK(c, opt, "no optimizer");
    L.sh_user_hook(hook); told.clear();
    struct Cb { cb_t *p; int kind, tag; long runs; bool alive; };       // 0 simple 1 with resources 2 early stopping 3 logger
    std::vector<Cb> cbs; int k = 1 + (int) c.small(12);
    int patience = (int) c.draw(5), bad = 0; bool stop = false; float best = 3.4e38f; cb_t *es = nullptr;
    c.note("%s %d metrics, callbacks", L.name.c_str(), nm);
    std::vector<float> cfg(64, 1.5f);
    for (int i = 0; i < k; i++) {
        int kind = (int) c.draw(es ? 1 : 3); Cb x{nullptr, kind, (int) c.draw(120), 0, true};
        if (kind < 2) { x.p = L.sh_user_cb(kind, x.tag, cfg.data(), (int) c.draw(64)); c.nontrivial(); }
        else if (kind == 2) es = x.p = L.sh_es_new(7, patience, 0, 0);
        else x.p = L.sh_log_new(7, 1, "log", 1);
        CHECK(c, x.p, "callback %d was not created", i);
        c.note(" %d:%d", kind, x.tag);
        cbs.push_back(x);
    }
    int epochs = (int) c.small(20), logged = 0;
    for (int e = 0; e < epochs; e++) {
        bool has = c.flip();
        std::vector<float> r(2 * nm); for (auto &x : r) x = (float) c.range(-20, 20) / 4;
        for (auto &x : cbs) if (x.alive) {
            std::vector<float> before = r; told.clear();
            L.sh_cb_run(x.p, opt, r.data(), has);
            CHECK(c, r == before, "the results changed while a callback ran");
            if (x.kind < 2) {
                CHECK(c, told.size() == 1, "running a callback once calls its function %zu times (%s)", told.size(), told.empty() ? "" : told.back().what.c_str());
                auto &t = told[0]; x.runs++;
                CHECK(c, t.what == "run" && t.self == x.p && t.tag == x.tag && t.a == opt && t.b == r.data() && t.n == x.runs && t.flag == (int) has, "a callback gets something else than it was run with: callback %s, tag %d (%d), optimizer %s, results %s, run %ld (%ld), validation %d (%d)",
                      t.self == x.p ? "ok" : "wrong", t.tag, x.tag, t.a == opt ? "ok" : "wrong", t.b == r.data() ? "ok" : "wrong", t.n, x.runs, t.flag, has);
            } else {
                CHECK(c, told.empty(), "running a built-in callback runs another one");
                if (x.kind == 3) logged++;
                if (x.p == es) { if (r[0] < best) { best = r[0]; bad = 0; } else if (++bad > patience) stop = true; CHECK(c, (L.sh_es_stop(es) != 0) == stop, "epoch %d: early stopping next to other callbacks says %d", e, L.sh_es_stop(es)); }
            }
        }
        if (c.chance(8)) { Cb &x = cbs[c.draw(cbs.size() - 1)]; if (x.alive && x.kind < 2) { told.clear(); L.sh_cb_free(x.p); CHECK(c, (int) told.size() == (x.kind == 1), "freeing a callback calls its free function %zu times", told.size()); x.alive = false; c.label("freed in between"); } }
    }
    if (logged) { std::string s; CHECK(c, read_file("log", s) && std::count(s.begin(), s.end(), '\n') == logged, "the log has not %d lines", logged); c.label("logger"); }
    for (auto &x : cbs) if (x.alive) {
        told.clear(); L.sh_cb_free(x.p);
        if (x.kind == 1) CHECK(c, told.size() == 1 && told[0].what == "free" && told[0].self == x.p && told[0].tag == x.tag && told[0].n == x.runs, "freeing a callback calls its free function %zu times", told.size());
        else CHECK(c, told.empty(), "freeing a callback touches another one");
    }
    L.sh_opt_free(opt); L.neuralnet_free(nn);
    c.label("callbacks %s", k < 4 ? "1-3" : "4+"); if (es) c.label("early stopping");
}

// a loss of one's own instead of a built-in one that computes the same
static void losses(Case &c) {
    mallopt(M_PERTURB, 1 + (int) c.draw(254));      // fresh memory is not zero
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 4; o.maxsize = 40; o.softmax_hidden = false; Net n = gen_net(c, o);
    if (n.acts.back() == "softmax") n.acts.back() = "linear";
    int kind = (int) c.draw(1);
    nn_t *a = make(L, n), *b = make(L, n); CHECK(c, a && b, "no network");
    L.neuralnet_set_loss(a, kind ? "mean_absolute_error" : "mean_squared_error"); L.neuralnet_set_loss(b, "mean_squared_error");     // the derivatives are found here
    L.sh_set_loss_fn(b, kind ? my_mae : my_mse);
    CHECK(c, L.get_loss_func(L.sh_loss_name(b)) == nullptr, "a loss of one's own is called '%s', which is a built-in one", L.sh_loss_name(b));
    size_t np = n.np();
    std::vector<float> x(n.nin()), t(n.nout());
    Rng r(c.seed64()); for (auto *w : {&x, &t}) for (auto &e : *w) e = (float) r.normal();
    float *ga = L.sh_malloc(np * 4 + 64), *gb = L.sh_malloc(np * 4 + 64), *X = L.sh_malloc(x.size() * 4 + 64), *T = L.sh_malloc(t.size() * 4 + 64);
    memcpy(X, x.data(), x.size() * 4); memcpy(T, t.data(), t.size() * 4);
    c.note("%s %s loss %d", L.name.c_str(), n.str().c_str(), kind);
    L.neuralnet_backpropagation(a, X, T, ga); L.neuralnet_backpropagation(b, X, T, gb);
    std::vector<float> va(ga, ga + np), vb(gb, gb + np);
    double m = 0; for (float f : va) { if (!(std::fabs(f) < 1e30)) c.discard(); m = std::max(m, (double) std::fabs(f)); }
    if (m > 1e-6) c.nontrivial();
    // (judged by the exact gradient: how much of it is rounding depends on what cancels)
    ref::Trace tr = ref::forward(n, x.data()); if (!tr.sane) c.discard();
    bool sane; std::vector<ref::Ball> want = ref::gradient(n, tr, kind ? "mean_absolute_error" : "mean_squared_error", t.data(), sane); if (!sane) c.discard();
    for (size_t i = 0; i < np; i++) CHECK(c, ref::inside(vb[i], want[i], 2), "%s: with one's own loss, parameter %zu of the gradient is %.9g, and %.9g with the same built-in loss, instead of %.9g +- %.3g", L.name.c_str(), i, vb[i], va[i], want[i].c, want[i].r);
    L.sh_free(ga); L.sh_free(gb); L.sh_free(X); L.sh_free(T); L.neuralnet_free(a); L.neuralnet_free(b);
}

int main(int argc, char **argv) {
    return main_("P27", {{"optimizer", optimizer_, 16000, 500000}, {"callbacks", callbacks, 16000, 500000}, {"losses", losses, 20000, 600000}},
                 "a case is nontrivial if an epoch has several batches (optimizer), there is a callback of one's own (callbacks), the gradient is not zero (losses)", argc, argv);
}
