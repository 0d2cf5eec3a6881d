// optmodel.hpp - lockstep model of the optimizers: the parameters the library really has when it computes the
// gradients of a batch are observed (through the loss function), the model predicts those of the next batch.
#pragma once
#include "ref.hpp"
#include <mutex>

namespace om {
using ref::Ball; using ref::U; using ref::TINY;

struct Settings { float lr = 0, decay = 0, mom = 0; bool nesterov = false; float rho = 0, b1 = 0, b2 = 0, wd = 0; };
static inline Settings defaults(int kind) {     // the documented defaults
    Settings s;
    if (kind == 0) s.lr = 0.01f;
    else if (kind == 1) { s.lr = 0.001f; s.rho = 0.9f; }
    else if (kind == 2) s.lr = 0.01f;
    else { s.lr = 0.001f; s.b1 = 0.9f; s.b2 = 0.999f; s.wd = 1e-4f; }
    return s;
}
static const char *KIND[] = {"SGD", "RMSprop", "adagrad", "adam"};

static inline Ball div(Ball a, Ball b) {            // b > 0
    double lo = b.c - b.r, hi = b.c + b.r;
    if (lo <= 0) lo = 1e-300;
    double q[4] = {(a.c - a.r) / lo, (a.c - a.r) / hi, (a.c + a.r) / lo, (a.c + a.r) / hi};
    double mn = q[0], mx = q[0]; for (double v : q) { mn = std::min(mn, v); mx = std::max(mx, v); }
    double m = a.c / b.c; Ball r(m, std::max(mx - m, m - mn) * (1 + 1e-14) + std::fabs(m) * 1e-15);
    return ref::rnd(r);
}
static inline Ball bsqrt(Ball a) {
    double lo = std::sqrt(std::max(0.0, a.c - a.r)), hi = std::sqrt(std::max(0.0, a.c + a.r)), m = std::sqrt(std::max(0.0, a.c));
    return ref::rnd(Ball(m, std::max(hi - m, m - lo)));
}

struct Model {
    int kind; Settings s; size_t np;
    std::vector<Ball> v, r, m; Ball lr, b1c = 1, b2c = 1; long it = 0;
    Model(int k, Settings st, size_t n) : kind(k), s(st), np(n), v(n), r(n), m(n), lr(st.lr) {}
    bool momentum() const { return (kind == 0 || kind == 1) && s.mom > 0; }
    // the change of the parameters before the gradient of the next batch (Nesterov's look-ahead)
    void before(std::vector<Ball> &p) {
        if (!momentum()) return;
        for (size_t i = 0; i < np; i++) v[i] = ref::mul(v[i], Ball(s.mom));
        if (s.nesterov) for (size_t i = 0; i < np; i++) p[i] = ref::add(p[i], v[i]);
    }
    // the change of the parameters by a batch with mean gradient g
    void step(std::vector<Ball> &p, const std::vector<Ball> &g) {
        if (kind != 3) {
            if (s.decay > 0) { Ball f = div(Ball(1), ref::add(Ball(1), ref::mul(Ball(s.decay), Ball((double) it)))); lr = ref::mul(lr, f); }
        } else { b1c = ref::mul(b1c, Ball(s.b1)); b2c = ref::mul(b2c, Ball(s.b2)); }
        it++;
        for (size_t i = 0; i < np; i++) {
            Ball d;
            if (kind == 0) d = ref::mul(Ball(-lr.c, lr.r), g[i]);
            else if (kind == 1 || kind == 2) {
                Ball g2 = ref::mul(g[i], g[i]);
                if (kind == 1) r[i] = ref::add(ref::mul(r[i], Ball(s.rho)), ref::mul(ref::sub(Ball(1), Ball(s.rho)), g2));
                else r[i] = ref::add(r[i], g2);
                if (r[i].c - r[i].r < 0) { r[i].r = (r[i].c + r[i].r) / 2; r[i].c = r[i].r; }
                Ball f = div(Ball(-lr.c, lr.r), ref::add(Ball(1e-7, 1e-14), bsqrt(r[i])));
                d = ref::mul(g[i], f);
            } else {
                m[i] = ref::add(ref::mul(m[i], Ball(s.b1)), ref::mul(ref::sub(Ball(1), Ball(s.b1)), g[i]));
                r[i] = ref::add(ref::mul(r[i], Ball(s.b2)), ref::mul(ref::sub(Ball(1), Ball(s.b2)), ref::mul(g[i], g[i])));
                if (r[i].c - r[i].r < 0) { r[i].r = (r[i].c + r[i].r) / 2; r[i].c = r[i].r; }
                Ball sh = div(m[i], ref::sub(Ball(1), b1c)), rh = div(r[i], ref::sub(Ball(1), b2c));
                d = div(ref::mul(Ball(-lr.c, lr.r), sh), ref::add(bsqrt(rh), Ball(1e-8, 1e-15)));
                if (s.wd > 0) d = ref::add(d, ref::mul(Ball(-s.wd), p[i]));
            }
            // (a product of the gradient and the rate may underflow before the division: its rounding is divided, too)
            double den = kind == 0 ? 1 : kind == 3 ? 1e-8 : 1e-7 + std::sqrt(std::max(0.0, r[i].c - r[i].r));
            d = ref::widen(d, 4 * U, 4 * TINY / den);
            if (momentum()) {
                v[i] = ref::add(v[i], d);
                p[i] = ref::add(p[i], s.nesterov ? d : v[i]);
            } else p[i] = ref::add(p[i], d);
        }
    }
};

// ---- observation ----
struct Event { int id; std::vector<float> params; std::vector<float> pred; };
static const Lib *gL; static nn_t *gnn; static loss_f gloss; static const float *gY; static int gnout; static unsigned gn;
static std::vector<Event> events; static std::mutex gmx; static bool gparams = true;
static std::map<float, int> gid;
static void rec_loss(unsigned n, const float *p, const float *t, float *l) {
    {
        std::lock_guard<std::mutex> g(gmx);
        Event e; auto k = gid.find(t[0]); e.id = k == gid.end() ? -1 : k->second;
        if (gparams) e.params = params(*gL, gnn);
        e.pred.assign(p, p + n);
        events.push_back(std::move(e));
    }
    gloss(n, p, t, l);
}
// from now on, record the samples whose loss is taken; sample i has target[0] == ids[i]
static void record(const Lib &L, nn_t *nn, const float *Y, int nout, unsigned n, bool with_params) {
    gL = &L; gnn = nn; gnout = nout; gY = Y; gn = n; gparams = with_params;
    gid.clear(); for (unsigned i = 0; i < n; i++) gid[Y[(size_t) i * nout]] = (int) i;
    if (L.sh_get_loss(nn) != rec_loss) { gloss = L.sh_get_loss(nn); L.sh_set_loss_fn(nn, rec_loss); }
    events.clear();
}
static void noprogress(int, int, const char *, ...) {}

struct Data { int n, nin, nout; std::vector<float> X, Y; };
static inline Data gen_data(pbt::Case &c, int n, int nin, int nout, const std::string &loss) {
    Data d{n, nin, nout}; d.X.resize((size_t) n * nin); d.Y.resize((size_t) n * nout);
    fill(c, d.X.data(), d.X.size(), 1.0);
    pbt::Rng r(c.seed64());
    for (auto &y : d.Y) y = loss == "binary_crossentropy" || loss == "categorical_crossentropy" ? (float) r.unit() : (float) (2 * r.sym());
    // the first target component identifies the sample
    for (int i = 0; i < n; i++) d.Y[(size_t) i * nout] = (float) (i + 1) * (1.0f / 64);
    return d;
}

// Mean gradient of the samples ids at parameters p, from the library's own backpropagation
static inline std::vector<Ball> mean_gradient(const Lib &L, nn_t *scratch, const Net &shape, const std::vector<float> &p, const Data &d, const std::vector<int> &ids) {
    Net n = shape; n.set_flat(p); put(L, scratch, n);
    size_t np = p.size(); float *g = L.sh_malloc(np * 4 + 256);
    std::vector<double> s(np), a(np);
    for (int id : ids) {
        L.neuralnet_backpropagation(scratch, &d.X[(size_t) id * d.nin], &d.Y[(size_t) id * d.nout], g);
        for (size_t i = 0; i < np; i++) { s[i] += g[i]; a[i] += std::fabs((double) g[i]); }
    }
    L.sh_free(g);
    std::vector<Ball> o(np); double B = ids.size();
    for (size_t i = 0; i < np; i++) o[i] = Ball(s[i] / B, B == 1 ? 0 : (B + 2) * U * a[i] / B + TINY);
    return o;
}
} // namespace om

namespace om {
struct Loss { std::string name; std::vector<std::string> outs; };
// a loss and an output activation it supports
static inline std::string gen_loss(pbt::Case &c, Net &n) {
    std::string l = c.pick(ref::LOSSES);
    if (l == "binary_crossentropy") n.acts.back() = "sigmoid";
    else if (l == "categorical_crossentropy") n.acts.back() = "softmax";
    else if (n.acts.back() == "softmax") n.acts.back() = "linear";
    return l;
}

// one optimizer run in lockstep with the model
static inline void lockstep(pbt::Case &c, const Lib &L, int maxnp, int maxepochs, int threads = 1, int mode = 0) {       // mode 1: wide networks, 2: large batches, 3: many epochs, 4: thousands of steps, 5: networks of up to millions of parameters
    NetOpt o; o.maxl = 3; o.maxsize = 20; o.softmax_hidden = false;
    if (mode > 1) { o.maxl = 2; o.maxsize = mode == 3 ? 3 : mode == 4 ? 1 : 6; }
    Net n = mode == 5 ? gen_vast_net(c, gen_large(c, 300000, maxnp)) : mode == 1 ? gen_large_net(c, maxnp * 2 / 3) : gen_net(c, o);
    std::string loss = gen_loss(c, n);
    if ((int) n.np() > maxnp) c.discard();
    int kind = (int) c.draw(3);
    Settings s = defaults(kind);
    int mask = 0; float v[8] = {0};
    auto set = [&](int bit, float &f, const std::vector<float> &vals) { if (c.chance(60)) { f = c.pick(vals); if (c.chance(30)) f = vals[0] == 0 ? (float) c.range(0, 500) / 1000 : (float) c.range(1, 995) / 1000; v[bit] = f; mask |= 1 << bit; } };
    set(0, s.lr, {0.01f, 0.1f, 0.5f, 0.001f});
    if (c.chance(15)) { s.lr = v[0] = std::pow(10.0f, -(float) c.range(0, 90) / 10); mask |= 1; }
    if (kind != 3) set(1, s.decay, {0.0f, 0.001f, 0.1f, 1.0f});
    if (kind != 3 && c.chance(mode >= 3 ? 70 : 15)) { s.decay = v[1] = std::pow(10.0f, -(float) c.range(mode == 4 ? 30 : 10, mode == 4 ? 100 : 70) / 10); mask |= 2; }
    if (kind < 2) {
        set(2, s.mom, {0.0f, 0.5f, 0.9f, 0.99f});
        if (c.chance(50)) { s.nesterov = c.flip(); v[3] = s.nesterov; mask |= 8; }
        if (kind == 1) set(4, s.rho, {0.9f, 0.5f, 0.99f});
    }
    if (kind == 3) { set(5, s.b1, {0.9f, 0.5f, 0.0f, 0.99f}); set(6, s.b2, {0.999f, 0.9f, 0.99f}); set(7, s.wd, {0.0f, 0.01f, 0.1f}); }
    int gmask = 8 | (c.chance(80) ? 1 : 0) | 2;
    int shuffle = c.chance(30);
    int B = 1 + (int) c.small(20); if (!(gmask & 1)) B = 32;
    int ns = 1 + (int) c.small(gmask & 1 ? 40 : 70), epochs = 1 + (int) c.draw(maxepochs - 1);
    if (mode == 1) ns = 1 + ns % 12;
    if (mode == 5) { ns = 1 + ns % 5; gmask |= 1; B = 1 + B % 4; c.label("parameters: 10^%d", (int) std::log10((double) n.np())); }
    if (mode == 2) { gmask |= 1; B = 1 + (int) c.draw(1200); ns = 1 + (int) c.draw(1500); }
    if (mode == 3) ns = 1 + ns % 9;
    if (mode == 4) { gmask |= 1; B = 1 + B % 2; epochs = std::max(1, (int) gen_large(c, 5000, maxepochs) * B / ns); }
    Data d = gen_data(c, ns, n.nin(), n.nout(), loss);
    c.note("%d threads %s %s %s lr=%g decay=%g mom=%g nesterov=%d rho=%g b1=%g b2=%g wd=%g mask=%d B=%d n=%d epochs=%d shuffle=%d loss=%s", threads, L.name.c_str(), KIND[kind], n.str().c_str(),
           s.lr, s.decay, s.mom, s.nesterov, s.rho, s.b1, s.b2, s.wd, mask, B, ns, epochs, shuffle, loss.c_str());
    L.sh_threads(1);
    nn_t *nn = make(L, n), *scratch = make(L, n);
    CHECK(c, nn && scratch, "neuralnet_create returned NULL");
    L.neuralnet_set_loss(nn, loss.c_str()); L.neuralnet_set_loss(scratch, loss.c_str());
    opt_t *opt = L.sh_opt_new(kind, nn, gmask, B, shuffle, nullptr, noprogress, mask, v);
    CHECK(c, opt, "the optimizer could not be created");
    CHECK(c, L.sh_opt_n_metrics(opt) == 1 && loss == L.sh_opt_metric_name(opt, 0), "%s: the default metric of loss %s is not the metric of that name", KIND[kind], loss.c_str());
    Model m(kind, s, n.np());
    std::vector<float> res(8, -77.0f);
    std::vector<float> cur = n.flat();
    long steps = 0; bool big = false;
    for (int e = 0; e < epochs && !big; e++) {
        record(L, nn, d.Y.data(), d.nout, ns, true);
        L.sh_threads(threads);
        L.optimizer_run_epoch(opt, ns, d.X.data(), d.Y.data(), 0, nullptr, nullptr, res.data());
        L.sh_threads(1);
        std::vector<float> end = params(L, nn);
        CHECK(c, (int) events.size() == ns, "%s: %zu sample gradients were taken in an epoch of %d samples", KIND[kind], events.size(), ns);
        std::vector<Ball> p(cur.begin(), cur.end());
        // a run may diverge, but only where the update rule says so
        auto diverged = [&] { for (auto &b : p) if (!(b.mag() < 1e5)) return true; return false; };
        for (int i = 0; i < ns; i += B) {
            int k = std::min(B, ns - i);
            m.before(p);
            if ((big = diverged())) break;
            std::vector<int> ids;
            for (int j = i; j < i + k; j++) {
                CHECK(c, events[j].id >= 0, "an unknown target was used");
                CHECK(c, same_bits(events[j].params, events[i].params), "%s: the parameters changed within a batch", KIND[kind]);
                ids.push_back(events[j].id);
            }
            const std::vector<float> &got = events[i].params;
            for (size_t q = 0; q < got.size(); q++)
                CHECK(c, ref::inside(got[q], p[q], 2), "%s: %s: before step %ld parameter %zu of %zu is %.9g, the update rule gives %.9g +- %.3g", L.name.c_str(), KIND[kind], steps + 1, q, got.size(), got[q], p[q].c, p[q].r);
            p.assign(got.begin(), got.end());
            std::vector<Ball> g = mean_gradient(L, scratch, n, got, d, ids);
            for (auto &b : g) if (!(b.mag() < 1e15)) big = true;       // its square does not fit a float
            if (big) break;
            m.step(p, g);
            steps++;
        }
        if (big || (big = diverged())) break;
        for (size_t q = 0; q < end.size(); q++)
            CHECK(c, ref::inside(end[q], p[q], 2), "%s: %s: after step %ld parameter %zu of %zu is %.9g, the update rule gives %.9g +- %.3g", L.name.c_str(), KIND[kind], steps, q, end.size(), end[q], p[q].c, p[q].r);
        cur = end;
    }
    if (big) c.label("diverged");
    if (steps >= 2) c.nontrivial();
    c.label("%s", KIND[kind]); c.label("variant %s", L.name.c_str());
    if (ns % B) c.label("partial last batch");
    if (epochs > 1) c.label("several epochs");
    if (m.momentum()) c.label(s.nesterov ? "%s nesterov" : "%s momentum", KIND[kind]);
    L.sh_opt_free(opt); L.neuralnet_free(nn); L.neuralnet_free(scratch);
}
} // namespace om
