// P04 - activation functions and derivatives
#include "ref.hpp"
using namespace pbt;
using ref::Ball; using ref::U; using ref::TINY; using ref::SUB;

static float gen_float(Rng &r, int style) {
    switch (style) {
    case 0: return (float) r.normal();
    case 1: return (float) (5 * r.normal());
    case 2: { uint32_t b; float f; do { b = (uint32_t) r.next(); memcpy(&f, &b, 4); } while (!std::isfinite(f)); return f; }        // every finite float
    case 3: return (float) (100 * r.sym());
    case 4: { static const float k[] = {0.0f, -0.0f, 2.5f, -2.5f, 1.0f, -1.0f, 88.0f, -88.0f, 88.37f, -88.37f, 88.4f, -88.4f, 88.72f, -88.72f, 89.0f, -89.0f, 103.9f, -103.9f, 104.0f, -104.0f, 44.0f, -44.0f, 16.6f, -16.6f, 9.0f, -9.0f, 0.625f, 1e-38f, 1e-45f, 3.4e38f, -3.4e38f, 1e20f, -1e20f, 1e4f, -1e4f, 127.5f, -127.5f, 128.0f, 0.34657f, -0.34657f};
        float f = k[r.below(sizeof k / 4)]; int s = (int) r.below(5) - 2; while (s > 0) { f = nextafterf(f, 1e38f); s--; } while (s < 0) { f = nextafterf(f, -1e38f); s++; } return f; }
    case 5: return (float) (r.sym() * std::pow(10.0, 38 * r.sym()));
    default: return (float) (2.5 + 1e-6 * r.sym()) * (r.below(2) ? 1 : -1);
    }
}
static bool g_long;
static int gen_len(Case &c) { if (g_long) return (int) gen_large(c, 80, 200000); if (c.chance(8)) return 0; return gen_size(c, c.chance(4) ? 1000 : 80); }

static void function(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    std::string a = c.pick(ACTS);
    int n = gen_len(c); if (a == "softmax" && n == 0) n = 1;
    int al = (int) c.draw(15), style = (int) c.draw(6); bool fl = c.flip();
    int odd = c.chance(30) ? (int) c.draw(6) : -1;       // some elements of another style
    Rng r(c.seed64());
    c.note("%s %s n=%d +%d%s style %d/%d", L.name.c_str(), a.c_str(), n, al, fl ? " flush" : "", style, odd);
    Buf v(n, al, fl); std::vector<float> x(n);
    for (int i = 0; i < n; i++) v[i] = x[i] = gen_float(r, odd >= 0 && r.below(4) == 0 ? odd : style);
    act_f f = L.get_activation_func(a.c_str()); CHECK(c, f, "%s not found", a.c_str());
    f(n, v.p);
    CHECK(c, v.intact(), "%s: %s wrote beyond its %d elements", L.name.c_str(), a.c_str(), n);
    if (n > 1) c.nontrivial();
    c.label("%s", a.c_str()); c.label("variant %s", L.name.c_str());
    if (a == "softmax") {
        std::vector<Ball> z; for (float f : x) z.push_back(Ball(f));
        std::vector<Ball> w = ref::softmax(z); double s = 0;
        for (int i = 0; i < n; i++) {
            CHECK(c, v[i] >= 0 && ref::inside(v[i], w[i]), "%s: softmax of %d values (+%d): element %d is %.9g, exactly %.9g +- %.3g", L.name.c_str(), n, al, i, v[i], w[i].c, w[i].r);
            s += v[i];
        }
        CHECK(c, std::fabs(s - 1) < (n + 20) * U, "%s: softmax of %d values sums to %.9g", L.name.c_str(), n, s);
        return;
    }
    double rel, abs; ref::accuracy(a, rel, abs);
    for (int i = 0; i < n; i++) {
        double w = ref::value(a, x[i]);
        if (w > 3.4e38 && v[i] > 3.4e38f) continue;                      // exp beyond the range of float
        CHECK(c, std::fabs(v[i] - w) <= rel * std::fabs(w) + abs, "%s: %s(%.9g) is %.9g, exactly %.9g (element %d of %d, +%d)", L.name.c_str(), a.c_str(), x[i], v[i], w, i, n, al);
    }
}

static double dslope(const std::string &a, double v) {
    if (a == "sigmoid") return v * (1 - v);
    if (a == "tanh") return 1 - v * v;
    if (a == "softplus") return -std::expm1(-v);
    if (a == "softsign") return (1 - std::fabs(v)) * (1 - std::fabs(v));
    if (a == "hard_sigmoid") return v > 0 && v < 1 ? 0.2 : 0;
    if (a == "relu") return v > 0;
    if (a == "exponential") return v;
    return 1;
}
static void derivative(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    std::string a = c.pick(ACTS);
    int n = gen_len(c), al = (int) c.draw(15), al2 = (int) c.draw(15), style = (int) c.draw(6); bool fl = c.flip(), fl2 = c.flip();
    int gs = (int) c.draw(3);
    Rng r(c.seed64());
    c.note("%s %s derivative n=%d +%d +%d style %d", L.name.c_str(), a.c_str(), n, al, al2, style);
    Buf v(n, al, fl), g(n, al2, fl2); std::vector<float> in(n), act(n);
    for (int i = 0; i < n; i++) {
        float x = gen_float(r, style);
        float y = a == "softmax" ? (float) r.unit() : (float) ref::value(a, x);
        if (!std::isfinite(y)) y = 1e30f;
        if (y > 1e30f) y = 1e30f; if (y < -1e30f) y = -1e30f;
        v[i] = act[i] = y;
        in[i] = gs == 0 ? (float) r.normal() : gs == 1 ? 1.0f : gs == 2 ? (float) (r.sym() * 1e-6) : (float) (r.sym() * 1e6);
        g[i] = in[i];
    }
    v.readonly();
    act_f f = L.get_activation_func(a.c_str()); CHECK(c, f, "%s not found", a.c_str());
    deriv_f d = L.get_activation_derivative(f); CHECK(c, d, "no derivative of %s", a.c_str());
    d(n, v.p, g.p);
    CHECK(c, g.intact(), "%s: the derivative of %s wrote beyond its %d elements", L.name.c_str(), a.c_str(), n);
    if (n > 1) c.nontrivial();
    c.label("%s", a.c_str()); c.label("variant %s", L.name.c_str());
    bool same = a == "linear" || a == "softmax";
    for (int i = 0; i < n; i++) {
        if (same) { CHECK(c, !memcmp(&g[i], &in[i], 4), "%s: the derivative of %s changed the gradient", L.name.c_str(), a.c_str()); continue; }
        double s = dslope(a, act[i]), w = in[i] * s;
        double tol = std::fabs(in[i]) * (16 * U * std::fabs(s) + (a == "exponential" || a == "relu" || a == "hard_sigmoid" ? 0 : 3 * U)) + SUB;
        if (std::fabs(w) > 3e38) continue;
        CHECK(c, std::fabs(g[i] - w) <= tol, "%s: derivative of %s at activation %.9g times %.9g is %.9g, exactly %.9g (element %d of %d, +%d +%d)", L.name.c_str(), a.c_str(), act[i], in[i], g[i], w, i, n, al, al2);
    }
}
static void longfn(Case &c) { g_long = true; if (c.flip()) function(c); else derivative(c); g_long = false; }
static void names(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    std::set<void *> fs;
    for (auto &a : ACTS) {
        act_f f = L.get_activation_func(a.c_str()); CHECK(c, f, "%s not found", a.c_str());
        CHECK(c, fs.insert((void *) f).second, "%s is the same function as another one", a.c_str());
        CHECK(c, a == L.get_activation_name(f), "the function found as %s is called %s", a.c_str(), L.get_activation_name(f));
        CHECK(c, f == L.get_activation_func(a.c_str()), "%s is not always the same function", a.c_str());
    }
    // near misses are unknown
    std::string a = c.pick(ACTS); int k = (int) c.draw(4); std::string b = a;
    if (k == 0) b = a.substr(0, a.size() - 1); else if (k == 1) b = a + (char) c.range('a', 'z'); else if (k == 2) b[c.draw(b.size() - 1)] ^= 32; else if (k == 3) b = " " + a; else b[c.draw(b.size() - 1)] = (char) c.range('a', 'z');
    for (auto &x : ACTS) if (x == b) c.discard();
    c.note("%s name \"%s\"", L.name.c_str(), b.c_str()); c.nontrivial();
    CHECK(c, !L.get_activation_func(b.c_str()), "\"%s\" resolves to an activation", b.c_str());
}
int main(int argc, char **argv) {
    libs();
    return main_("P04", {{"function", function, 150000, 3000000}, {"derivative", derivative, 100000, 1500000}, {"long", longfn, 6000, 120000}, {"names", names, 3000, 20000}},
                 "random activation, length, alignment, guard mode and value class (all finite floats, ranges around the limits of the exponential, kinks) in every build, compared with double precision; non-trivial: more than one element / name lookups", argc, argv);
}
