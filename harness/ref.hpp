// ref.hpp - reference model in ball arithmetic.
// A Ball is a centre and a radius: every float32 evaluation of the quantity, in any order of summation, with or
// without fused multiply-add, with elementary functions of the stated accuracy, lies inside it.
#pragma once
#include "lib.hpp"

namespace ref {
static const double U = 5.9604644775390625e-8;      // 2^-24
static const double TINY = 1.5e-45;                 // a bit more than half the smallest subnormal
static const double SUB = 2.4e-38;                  // about the smallest normal numbers: functions may flush below this

struct Ball {
    double c = 0, r = 0;
    Ball() {}
    Ball(double c_, double r_ = 0) : c(c_), r(r_) {}
    double mag() const { return std::fabs(c) + r; }
    bool sane() const { return std::isfinite(c) && std::isfinite(r) && mag() < 1e37; }
};
static inline Ball rnd(Ball b) { b.r += std::fabs(b.c) * 1.0001 * U + b.r * U + TINY; return b; }   // one rounding
static inline Ball add(Ball a, Ball b) { return rnd(Ball(a.c + b.c, a.r + b.r + 1e-15 * (std::fabs(a.c) + std::fabs(b.c)))); }
static inline Ball sub(Ball a, Ball b) { return rnd(Ball(a.c - b.c, a.r + b.r + 1e-15 * (std::fabs(a.c) + std::fabs(b.c)))); }
static inline Ball mul(Ball a, Ball b) { return rnd(Ball(a.c * b.c, std::fabs(a.c) * b.r + std::fabs(b.c) * a.r + a.r * b.r)); }
static inline Ball scale(Ball a, double s) { return Ball(a.c * s, a.r * std::fabs(s)); }            // exact
static inline Ball hull(double lo, double hi) { return Ball((lo + hi) / 2, (hi - lo) / 2); }
static inline Ball widen(Ball a, double rel, double abs = 0) { a.r += a.mag() * rel + abs; return a; }

// An accumulating sum, any order
struct Sum {
    double c = 0, r = 0, m = 0; long n = 0;
    void add(Ball b) { c += b.c; r += b.r; m += b.mag(); n++; }
    void addprod(Ball a, Ball b) { Ball p(a.c * b.c, std::fabs(a.c) * b.r + std::fabs(b.c) * a.r + a.r * b.r); add(p); }
    Ball get() const { double k = (double) (n + 2) * U * 1.001; return Ball(c, r + k * m + (n + 1) * TINY); }
};

static inline double sig(double x) { return x >= 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); }
static inline double softp(double x) { return std::max(x, 0.0) + std::log1p(std::exp(-std::fabs(x))); }
static inline double hsig(double x) { return x < -2.5 ? 0 : x > 2.5 ? 1 : 0.2 * x + 0.5; }
static inline double ssign(double x) { return x / (1 + std::fabs(x)); }

// the exact value of an elementwise activation
static inline double value(const std::string &a, double x) {
    if (a == "sigmoid") return sig(x);
    if (a == "tanh") return std::tanh(x);
    if (a == "softplus") return softp(x);
    if (a == "softsign") return ssign(x);
    if (a == "hard_sigmoid") return hsig(x);
    if (a == "relu") return std::max(x, 0.0);
    if (a == "exponential") return std::exp(x);
    return x;                                              // linear
}
// accuracy granted to the implementation: relative and absolute error
static inline void accuracy(const std::string &a, double &rel, double &abs) {
    rel = 8 * U; abs = TINY;
    if (a == "sigmoid") { rel = 16 * U; abs = SUB; }
    else if (a == "tanh") { rel = 8 * U; abs = 10 * U; }
    else if (a == "softplus") { rel = 8 * U; abs = SUB; }
    else if (a == "exponential") { rel = 8 * U; abs = SUB; }
    else if (a == "hard_sigmoid") { rel = 0; abs = 4 * U; }
    else if (a == "relu" || a == "linear") { rel = 0; abs = 0; }
}
static inline std::vector<Ball> softmax(const std::vector<Ball> &z) {
    double mx = -1e300, rm = 0, s = 0;
    for (auto &b : z) { mx = std::max(mx, b.c); rm = std::max(rm, b.r); }
    for (auto &b : z) s += std::exp(b.c - mx);
    std::vector<Ball> o;
    for (auto &b : z) {
        double p = std::exp(b.c - mx) / s;
        // the implementation computes z - max with one rounding of up to U*|z-max|
        double d = (std::fabs(b.c - mx) + 2 * rm) * U * 1.01;
        double rel = std::expm1(std::min(2 * rm + 2 * d, 50.0)) + (z.size() + 24) * U;
        o.push_back(Ball(p, std::min(p * rel, 1.0) + SUB));
        if (p * rel > 1 || 2 * rm + 2 * d > 20) o.back() = hull(0, 1);
    }
    return o;
}
struct Custom { std::function<std::vector<Ball>(const std::vector<Ball> &)> f; std::function<Ball(size_t i, size_t n, Ball y)> d; };
static std::map<std::string, Custom> custom;        // further activation functions, and their slopes
static inline std::vector<Ball> activate(const std::string &a, const std::vector<Ball> &z) {
    if (!custom.empty()) { auto k = custom.find(a); if (k != custom.end()) return k->second.f(z); }
    if (a == "softmax") return softmax(z);
    std::vector<Ball> o;
    double rel, abs; accuracy(a, rel, abs);
    for (auto &b : z) {
        double lo = value(a, b.c - b.r), hi = value(a, b.c + b.r), m = value(a, b.c);   // all are increasing
        Ball r(m, std::max(hi - m, m - lo) * (1 + 1e-12));
        o.push_back(widen(r, rel + 1e-15, abs));
    }
    return o;
}
// slope by the pre-activation, as it may come out when computed from the activation value
static inline Ball slope(const std::string &a, Ball z, Ball v) {
    double lo = z.c - z.r, hi = z.c + z.r;
    if (a == "sigmoid") { Ball s = mul(v, sub(Ball(1), v)); s.r += 2 * U * v.mag(); return s; }
    if (a == "tanh") { Ball s = sub(Ball(1), mul(v, v)); s.r += 3 * U; return s; }
    if (a == "softplus") { double s = sig(z.c), l = sig(lo), h = sig(hi); return widen(Ball(s, std::max(h - s, s - l)), 16 * U, std::exp(-std::max(v.c - v.r, -50.0)) * v.r + 4 * U); }
    if (a == "softsign") { double q = 1 / (1 + std::fabs(z.c)); Ball w(q, 0); 
        double al = std::fabs(z.c) - z.r > 0 ? std::fabs(z.c) - z.r : 0, ah = std::fabs(z.c) + z.r;
        w.r = std::max(1 / (1 + al) - q, q - 1 / (1 + ah)) + v.r + 4 * U; Ball s(w.c * w.c, 2 * w.c * w.r + w.r * w.r); return widen(s, 16 * U, 1e-44); }
    if (a == "hard_sigmoid") { double e = 1e-5; 
        if (hi < -2.5 - e || lo > 2.5 + e) return Ball(0);
        if (lo > -2.5 + e && hi < 2.5 - e) return Ball(0.2, 0.2 * U * 2);
        return hull(0, 0.2000001); }
    if (a == "relu") return lo > 0 ? Ball(1) : hi <= 0 && z.r == 0 ? Ball(0) : hi < 0 ? Ball(0) : hull(0, 1);
    if (a == "exponential") return widen(v, 2 * U);
    return Ball(1);
}

struct Trace { std::vector<std::vector<Ball>> z, a; bool sane = true; };    // a[0] = input

static inline Trace forward(const Net &n, const float *x) {
    Trace t;
    std::vector<Ball> cur;
    for (int i = 0; i < n.nin(); i++) cur.push_back(Ball(x[i]));
    t.a.push_back(cur);
    for (int l = 0; l < n.L(); l++) {
        int ni = n.sizes[l], no = n.sizes[l + 1];
        std::vector<Sum> s(no);
        for (int j = 0; j < no; j++) s[j].add(Ball(n.b[l][j]));
        const float *w = n.w[l].data();
        for (int i = 0; i < ni; i++) for (int j = 0; j < no; j++) s[j].addprod(cur[i], Ball(w[(size_t) i * no + j]));
        std::vector<Ball> z;
        for (int j = 0; j < no; j++) { z.push_back(s[j].get()); if (!z[j].sane() || s[j].m > 1e37) t.sane = false; }
        cur = activate(n.acts[l], z);
        for (auto &b : cur) if (!b.sane()) t.sane = false;
        t.z.push_back(z); t.a.push_back(cur);
        if (!t.sane) return t;
    }
    return t;
}

static inline double clipd(double v) { return std::min(std::max(v, 1e-7), 1.0 - 1e-7); }

// d loss / d prediction for the named loss (cross-entropies: combined with their output activation)
static inline std::vector<Ball> loss_grad(const std::string &loss, const std::vector<Ball> &p, const float *t) {
    std::vector<Ball> o; double n = (double) p.size();
    for (size_t i = 0; i < p.size(); i++) {
        Ball d = sub(p[i], Ball(t[i]));
        if (loss == "mean_squared_error") o.push_back(widen(scale(d, 2 / n), 3 * U, TINY));
        else if (loss == "categorical_crossentropy") o.push_back(d);
        else if (loss == "binary_crossentropy") o.push_back(widen(scale(d, 1 / n), 2 * U, TINY));
        else {
            double k = loss == "mean_absolute_error" ? 1 / n : 100 / (std::max(std::fabs((double) t[i]), 1e-7) * n);
            if (d.c - d.r > 0) o.push_back(widen(Ball(k), 6 * U));
            else if (d.c + d.r < 0) o.push_back(widen(Ball(-k), 6 * U));
            else o.push_back(hull(-k * 1.000001, k * 1.000001));          // at the kink every subgradient will do
        }
    }
    return o;
}

// gradient in the layout of the library: per layer biases, then weights row by row
static inline std::vector<Ball> gradient(const Net &n, const Trace &t, const std::string &loss, const float *target, bool &sane) {
    int L = n.L();
    std::vector<std::vector<Ball>> gb(L);
    gb[L - 1] = loss_grad(loss, t.a[L], target);
    bool paired = loss == "categorical_crossentropy" || loss == "binary_crossentropy";
    for (int l = L - 1; l >= 0; l--) {
        int no = n.sizes[l + 1];
        if (l < L - 1) {
            int m = n.sizes[l + 2];
            for (int i = 0; i < no; i++) {
                Sum s; for (int j = 0; j < m; j++) s.addprod(Ball(n.w[l + 1][(size_t) i * m + j]), gb[l + 1][j]);
                gb[l].push_back(s.get());
            }
        }
        if (!(l == L - 1 && paired))
            for (int i = 0; i < no; i++) {
                auto k = custom.find(n.acts[l]);
                gb[l][i] = mul(gb[l][i], k != custom.end() ? k->second.d(i, no, t.a[l + 1][i]) : slope(n.acts[l], t.z[l][i], t.a[l + 1][i]));
            }
    }
    std::vector<Ball> o;
    for (int l = 0; l < L; l++) {
        for (auto &b : gb[l]) o.push_back(b);
        for (int i = 0; i < n.sizes[l]; i++) for (int j = 0; j < n.sizes[l + 1]; j++) o.push_back(mul(t.a[l][i], gb[l][j]));
    }
    sane = true;
    for (auto &b : o) if (!b.sane()) sane = false;
    return o;
}

static const std::vector<std::string> METRICS = {"mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy",
                                                 "categorical_crossentropy", "binary_accuracy", "categorical_accuracy"};
static const std::vector<std::string> LOSSES = {"mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy", "categorical_crossentropy"};

static inline Ball clipball(Ball p) {    // clipped to [1e-7, 1-1e-7] in float32
    double lo = clipd(p.c - p.r), hi = clipd(p.c + p.r); Ball b = hull(lo, hi); b.r += 1e-15; return b;
}
static inline Ball logball(Ball p, double abserr) { // p > 0, p known up to abserr more
    double lo = std::log(std::max(p.c - p.r - abserr, 1e-9)), hi = std::log(p.c + p.r + abserr);
    Ball b = hull(lo, hi); return widen(b, 4 * U, 1e-15);
}
// metric of predictions given as balls; the targets are exact
static inline Ball metric(const std::string &m, const std::vector<Ball> &p, const float *t) {
    size_t n = p.size(); Sum s;
    if (m == "categorical_accuracy") {
        // possible winners: all whose upper end reaches the largest lower end; an exact tie goes to the first
        size_t rt = 0; for (size_t i = 1; i < n; i++) if (t[i] > t[rt]) rt = i;
        bool exact = true; for (auto &b : p) if (b.r != 0) exact = false;
        if (exact) { size_t w = 0; for (size_t i = 1; i < n; i++) if (p[i].c > p[w].c) w = i; return Ball(w == rt); }
        double best = -1e300; for (auto &b : p) best = std::max(best, b.c - b.r);
        int poss = 0; bool rposs = false;
        for (size_t i = 0; i < n; i++) if (p[i].c + p[i].r >= best) { poss++; if (i == rt) rposs = true; }
        return !rposs ? Ball(0) : poss == 1 ? Ball(1) : hull(0, 1);
    }
    for (size_t i = 0; i < n; i++) {
        Ball d = sub(p[i], Ball(t[i]));
        if (m == "mean_squared_error") s.addprod(d, d);
        else if (m == "mean_absolute_error") s.add(Ball(std::fabs(d.c), d.r));
        else if (m == "mean_absolute_percentage_error") { double k = 1 / std::max(std::fabs((double) t[i]), 1e-7); s.add(widen(Ball(std::fabs(d.c) * k, d.r * k), 4 * U)); }
        else if (m == "binary_crossentropy") {
            Ball q = clipball(p[i]); double tt = t[i];
            s.add(widen(mul(Ball(tt), logball(q, U * 2)), 2 * U)); 
            // 1 - q in float32: within one rounding of q near 1
            Ball w(1 - q.c, q.r + 1.5 * U); s.add(widen(mul(sub(Ball(1), Ball(tt)), logball(w, 0)), 2 * U));
        }
        else if (m == "categorical_crossentropy") s.add(mul(Ball(t[i]), logball(clipball(p[i]), U * 2)));
        else {                                                                  // binary_accuracy
            double rt = std::round(std::min(std::max((double) t[i], 0.0), 1.0));
            double lo = std::round(std::min(std::max(p[i].c - p[i].r, 0.0), 1.0)), hi = std::round(std::min(std::max(p[i].c + p[i].r, 0.0), 1.0));
            s.add(lo == hi ? Ball(lo == rt) : hull(0, 1));
        }
    }
    Ball r = s.get();
    if (m == "binary_crossentropy" || m == "categorical_crossentropy") r.c = -r.c;
    double f = m == "mean_absolute_percentage_error" ? 100.0 / n : 1.0 / n;
    return widen(scale(r, f), 6 * U, TINY);
}

// check a result against its ball; the factor is slack for the model itself
static inline bool inside(float v, const Ball &b, double slack = 1.5) { return std::fabs((double) v - b.c) <= slack * b.r + TINY; }
} // namespace ref
