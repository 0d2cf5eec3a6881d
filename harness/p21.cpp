// P21 - construction and initialisation
#include "ref.hpp"
#include <climits>
using namespace pbt;

// rand() is under our control in the arm "extreme": runs of extreme and central values
static Rng *g_rng; static int g_run; static int g_val; static long g_calls;
extern "C" int rand(void) {
    static int (*real)(void) = (int (*)(void)) dlsym(RTLD_NEXT, "rand");
    if (!g_rng) return real();
    g_calls++;
    if (g_run == 0 && g_rng->below(4) == 0) {
        static const int S[] = {0, 1, RAND_MAX, RAND_MAX - 1, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX / 4, RAND_MAX / 2 - 63, RAND_MAX / 2 + 64};
        g_run = 1 + (int) g_rng->below(5); g_val = S[g_rng->below(9)];
    }
    if (g_run > 0) { g_run--; return g_val; }
    return (int) (g_rng->next() % ((uint64_t) RAND_MAX + 1));
}

static std::string gen_act(Case &c, bool &known) {
    known = true;
    if (c.chance(80)) return c.pick(ACTS);
    known = false;
    static const std::vector<std::string> U = {"", "Sigmoid", "sigmoid ", " tanh", "rel", "relu6", "softma", "linea", "foo", "%s%n", "tanh_act", "softplus_derivative", "@", "f@", "@l", "f@nosuchlibrary.so", "nosuch@./libnothing.so"};
    std::string s = c.pick(U);
    if (c.chance(50)) {                            // something near to a known name
        std::string k = c.pick(ACTS); s = k; const char *A = "s_ 6AdT.";
        switch (c.draw(4)) {
        case 0: s += A[c.draw(7)]; break;
        case 1: s.pop_back(); break;
        case 2: s.insert(s.begin(), A[c.draw(7)]); break;
        case 3: s[c.draw(s.size() - 1)] ^= 32; break;
        default: s += c.pick(ACTS); break;
        }
        for (auto &a : ACTS) if (a == s) known = true;
    }
    if (!known && c.chance(10)) s = std::string(c.draw(300), 'z') + (c.flip() ? "@" : "q");
    return s;
}
static void create(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    int nl = c.chance(10) ? (int) c.range(-3, 0) : c.chance(5) ? (int) (c.chance(10) ? gen_large(c, 200, 3000) : c.range(1, 200)) : (int) c.range(1, 8);
    std::vector<int> sizes; std::vector<std::string> acts; std::vector<bool> known; bool bad = nl < 1;
    for (int i = 0; i <= std::max(nl, 0); i++) {
        int s = c.chance(5) ? 500 + (int) c.draw(3000) : 1 + (int) c.small(80);
        if (nl == 1 && c.chance(2)) s = (int) gen_large(c, 3000, 200000) / (i ? sizes[0] > 100 ? 200 : 2 : 1) + 1;
        if (nl > 20) s = 1 + s % 30;
        if (c.chance(3)) { s = c.pick(std::vector<int>{0, -1, -100, INT_MIN}); if (i <= nl) bad = true; }
        sizes.push_back(s);
    }
    if (nl < 1) bad = true;
    for (int i = 0; i < nl; i++) { bool k; acts.push_back(gen_act(c, k)); known.push_back(k); }
    std::string note = std::to_string(nl) + " layers:"; for (size_t i = 0; i < sizes.size() && i < 12; i++) note += " " + std::to_string(sizes[i]) + (i < acts.size() ? " " + acts[i].substr(0, 40) : "");
    c.note("%s", note.c_str()); if (nl > 1) c.nontrivial();
    // the arguments live in memory that is overwritten afterwards
    std::vector<char *> names; std::vector<bool> null; for (auto &a : acts) { bool nu = c.chance(2); null.push_back(nu); names.push_back(nu ? nullptr : strdup(a.c_str())); }
    std::vector<int> arg = sizes;
    Capture err(2);
    nn_t *nn = L.neuralnet_create(nl, nl < 1 && c.flip() ? nullptr : arg.data(), nl < 1 && c.flip() ? nullptr : names.data());
    std::string e = err.text();
    CHECK(c, arg == sizes, "the size array was changed");
    if (bad) {
        c.label("bad sizes");
        CHECK(c, !nn, "%s: a network was created", note.c_str());
        return;
    }
    CHECK(c, nn, "%s: no network was created", note.c_str());
    std::fill(arg.begin(), arg.end(), -7); for (char *p : names) if (p) { memset(p, 'x', strlen(p)); free(p); }
    CHECK(c, L.sh_n_layers(nn) == nl, "%d layers instead of %d", L.sh_n_layers(nn), nl);
    bool unknown = false;
    for (int i = 0; i < nl; i++) {
        CHECK(c, L.sh_n_in(nn, i) == sizes[i] && L.sh_n_out(nn, i) == sizes[i + 1], "layer %d is %d x %d instead of %d x %d", i, L.sh_n_in(nn, i), L.sh_n_out(nn, i), sizes[i], sizes[i + 1]);
        const char *want = !null[i] && known[i] ? acts[i].c_str() : "linear"; if (!null[i] && !known[i]) unknown = true;
        const char *got = L.sh_act(nn, i);
        CHECK(c, got && !strcmp(got, want), "layer %d: activation '%s' instead of '%s' (requested '%s')", i, got, want, acts[i].c_str());
        // all parameters can be used
        float *w = L.sh_weight(nn, i), *b = L.sh_bias(nn, i);
        CHECK(c, w && b, "layer %d has no memory", i);
        CHECK(c, (uintptr_t) w % L.sh_align() == 0 && (uintptr_t) b % L.sh_align() == 0, "the parameters of layer %d are not aligned", i);
        for (size_t k = 0; k < (size_t) sizes[i] * sizes[i + 1]; k++) w[k] = (float) (i + 1);
        for (int k = 0; k < sizes[i + 1]; k++) b[k] = -(float) (i + 1);
    }
    for (int i = 0; i < nl; i++) {
        float *w = L.sh_weight(nn, i), *b = L.sh_bias(nn, i);
        for (size_t k = 0; k < (size_t) sizes[i] * sizes[i + 1]; k++) CHECK(c, w[k] == (float) (i + 1), "the parameters of the layers overlap");
        for (int k = 0; k < sizes[i + 1]; k++) CHECK(c, b[k] == -(float) (i + 1), "the parameters of the layers overlap");
    }
    if (unknown) { c.label("unknown activation"); CHECK(c, !e.empty(), "no warning for an unknown activation"); }
    else CHECK(c, e.empty(), "warnings for a valid request: %s", e.substr(0, 200).c_str());
    CHECK(c, !L.sh_has_loss(nn), "a new network has a loss function");
    L.neuralnet_free(nn);
}

enum Dist { XAVIER, KAIMING, NORMAL };
static double cdf(Dist d, double x) { return d == XAVIER ? std::min(1.0, std::max(0.0, (x + 1) / 2)) : 0.5 * std::erfc(-x / std::sqrt(2.0)); }     // of the normalised value
static double ks(std::vector<double> v, Dist d) {
    std::sort(v.begin(), v.end()); double m = 0, n = v.size();
    for (size_t i = 0; i < v.size(); i++) { double f = cdf(d, v[i]); m = std::max(m, std::max(std::fabs(f - i / n), std::fabs(f - (i + 1) / n))); }
    return m * std::sqrt(n);
}
static double corr(const double *a, const double *b, size_t n) {    // of two zero-mean unit-variance-ish sequences, in standard deviations
    double s = 0, x = 0, y = 0; for (size_t i = 0; i < n; i++) { s += a[i] * b[i]; x += a[i] * a[i]; y += b[i] * b[i]; }
    return x > 0 && y > 0 ? s / std::sqrt(x * y) * std::sqrt((double) n) : 0;
}
static const double KSMAX = 3.6, ZMAX = 7.0;       // p < 1e-10
static void init_(Case &c, bool extreme, bool large = false, bool huge = false) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    NetOpt o; o.maxl = 12; o.maxsize = c.pick(std::vector<int>{6, 40, 150}); o.wscale = 1;
    Net n = huge ? gen_huge_net(c, c.pick(std::vector<int>{150000, 500000, 1000000}), true, 0) : large ? gen_large_net(c, c.pick(std::vector<int>{20000, 200000, 700000}), true, 0) : gen_net(c, o);
    std::vector<std::string> ini; bool given = c.flip(); 
    for (int l = 0; l < n.L(); l++) ini.push_back(c.pick(std::vector<std::string>{"xavier", "kaiming", "", "Xavier", "glorot", "he", "normal"}));
    std::vector<Dist> dist;
    for (int l = 0; l < n.L(); l++) {
        std::string a = n.acts[l]; Dist d = a == "relu" || a == "softplus" ? KAIMING : a == "linear" || a == "exponential" ? NORMAL : XAVIER;
        if (given && ini[l] == "xavier") d = XAVIER; if (given && ini[l] == "kaiming") d = KAIMING;
        dist.push_back(d);
    }
    c.note("%s %s%s", L.name.c_str(), n.str().c_str(), given ? " initialisers" : ""); if (given) for (auto &s : ini) c.note(" '%s'", s.c_str());
    c.nontrivial();
    std::vector<char *> ip; for (auto &s : ini) ip.push_back((char *) s.c_str()); ip.push_back(nullptr);
    srand((unsigned) c.seed64()); Rng rr(c.seed64()); if (extreme) g_rng = &rr;
    int rounds = 2; std::vector<std::vector<double>> pool(3); std::vector<std::vector<std::vector<double>>> all(rounds);
    nn_t *nn[2];
    for (int k = 0; k < rounds; k++) {
        nn[k] = make(L, n); CHECK(c, nn[k], "no network");
        for (int l = 0; l < n.L(); l++) { for (size_t q = 0; q < n.w[l].size(); q++) L.sh_weight(nn[k], l)[q] = NAN; for (size_t q = 0; q < n.b[l].size(); q++) L.sh_bias(nn[k], l)[q] = NAN; }
        L.neuralnet_initialize(nn[k], given ? ip.data() : nullptr);
    }
    g_rng = nullptr;
    for (int k = 0; k < rounds; k++) {
        for (int l = 0; l < n.L(); l++) {
            double ni = n.sizes[l], no = n.sizes[l + 1];
            double sc = dist[l] == XAVIER ? std::sqrt(6 / (ni + no)) : dist[l] == KAIMING ? std::sqrt(2 / ni) : 1.0;
            std::vector<double> v;
            CHECK(c, L.sh_n_in(nn[k], l) == n.sizes[l] && L.sh_n_out(nn[k], l) == n.sizes[l + 1] && n.acts[l] == L.sh_act(nn[k], l), "initialisation changed layer %d", l);
            for (float b : std::vector<float>(L.sh_bias(nn[k], l), L.sh_bias(nn[k], l) + (int) no)) CHECK(c, b == 0, "%s: a bias of layer %d is %g", n.str().c_str(), l, b);
            for (size_t q = 0; q < n.w[l].size(); q++) {
                float w = L.sh_weight(nn[k], l)[q];
                CHECK(c, std::isfinite(w), "%s: weight %zu of layer %d is %g", n.str().c_str(), q, l, w);
                double x = w / sc; v.push_back(x);
                if (dist[l] == XAVIER) CHECK(c, std::fabs(x) <= 1 + 1e-6, "%s: weight %zu of layer %d is %.9g, beyond the limit %.9g of Xavier's scheme", n.str().c_str(), q, l, w, sc);
                else CHECK(c, std::fabs(x) < 14, "%s: weight %zu of layer %d is %.9g, which a normal distribution with standard deviation %.9g never gives", n.str().c_str(), q, l, w, sc);
            }
            all[k].push_back(v); pool[dist[l]].insert(pool[dist[l]].end(), v.begin(), v.end());
            static const char *N[] = {"Xavier", "Kaiming", "standard normal"}; c.label("%s", N[dist[l]]);
            if (!extreme && v.size() >= 100) { double z = ks(v, dist[l]); CHECK(c, z < KSMAX, "%s: the %zu weights of layer %d (%s x) do not follow the %s scheme (KS %.2f)", n.str().c_str(), v.size(), l, n.acts[l].c_str(), N[dist[l]], z); }
        }
    }
    if (!extreme) {
        for (int d = 0; d < 3; d++) if (pool[d].size() >= 20) { double z = ks(pool[d], (Dist) d); CHECK(c, z < KSMAX, "%s: %zu weights do not follow scheme %d (KS %.2f)", n.str().c_str(), pool[d].size(), d, z); }
        // values that come again (at most 2^24 or so are different, so some do)
        for (int k = 0; large && k < rounds; k++) for (int l = 0; l < n.L(); l++) {
            std::vector<double> &v = all[k][l], q; for (double x : v) q.push_back(std::fabs(x)); std::sort(q.begin(), q.end());
            double pairs = 0, m = q.size(); for (size_t i = 0, j; i < q.size(); i = j) { for (j = i; j < q.size() && q[j] == q[i]; j++) ; pairs += (double) (j - i) * (j - i - 1) / 2; }
            CHECK(c, pairs < 50 + 4 * m * m / (1 << 24), "%s: of the %zu weights of layer %d %.0f pairs are equal", n.str().c_str(), q.size(), l, pairs);
        }
        // independence: within a layer at several distances, between layers, between networks
        auto indep = [&](const double *a, const double *b, size_t m, const char *what, int x, int y) { if (m < 60) return; double z = corr(a, b, m); CHECK(c, std::fabs(z) < ZMAX, "%s: weights are not independent: %s %d %d (z = %.1f)", n.str().c_str(), what, x, y, z); };
        for (int l = 0; l < n.L(); l++) {
            auto &v = all[0][l]; std::set<int> lags; for (int i = 1; i <= 20; i++) lags.insert(i); lags.insert(n.sizes[l]); lags.insert(n.sizes[l + 1]);
            for (int g : lags) if ((size_t) g < v.size()) indep(v.data(), v.data() + g, v.size() - g, "layer, distance", l, g);
            for (int m = 0; m < n.L(); m++) { if (m > l) indep(v.data(), all[0][m].data(), std::min(v.size(), all[0][m].size()), "layers", l, m); indep(v.data(), all[1][m].data(), std::min(v.size(), all[1][m].size()), "layers of two networks", l, m); }
            // dependence of the magnitudes
            std::vector<double> q; double mean = 0; for (double x : v) mean += x * x; mean /= v.size(); for (double x : v) q.push_back(std::min(x * x, 9.0) - mean);
            if (dist[l] == XAVIER) for (int g : lags) if ((size_t) g < q.size()) indep(q.data(), q.data() + g, q.size() - g, "squares in layer, distance", l, g);
        }
    } else c.label("%s", g_calls ? "rand() used" : "rand() not used");
    L.neuralnet_free(nn[0]); L.neuralnet_free(nn[1]);
}
int main(int argc, char **argv) {
    libs();
    return main_("P21", {{"create", create, 40000, 600000}, {"initialise", [](Case &c) { init_(c, false); }, 8000, 100000}, {"large", [](Case &c) { init_(c, false, true); }, 400, 12000}, {"huge", [](Case &c) { init_(c, false, true, true); }, 150, 6000}, {"extreme", [](Case &c) { init_(c, true); }, 10000, 150000}},
                 "create: valid and invalid requests; initialise: Kolmogorov-Smirnov tests per layer and scheme and correlations within and between layers and networks (thresholds at p < 1e-10); extreme: rand() giving runs of extreme values, all weights finite and within bounds; non-trivial: more than one layer / always", argc, argv);
}
