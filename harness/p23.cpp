// P23 - user-supplied activation functions
#include "optmodel.hpp"
using namespace pbt;
using ref::Ball;

static const std::vector<std::string> SYM = {"swish", "relu", "tanh", "f", "linear",
    "an_activation_function_with_a_rather_long_name_which_goes_on_and_on_and_on_until_nobody_wants_to_read_it_any_more_but_the_linker_does_not_mind_and_neither_should_the_library_which_looks_it_up", "forward_only", "g"};
struct Param { char magic[12]; int id, kind, dkind; float a, b, d; };
static std::string g_template;
static void define(const std::string &name, const Param &p, bool trainable) {
    ref::Custom u; Param q = p;
    u.f = [q](const std::vector<Ball> &z) {
        std::vector<Ball> o; size_t n = z.size(); Ball a(q.a), b(q.b);
        for (size_t i = 0; i < n; i++) switch (q.kind) {
            case 0: o.push_back(ref::add(ref::mul(a, z[i]), b)); break;
            case 1: o.push_back(ref::mul(z[i], ref::add(a, ref::mul(Ball((double) i), b)))); break;
            case 2: o.push_back(ref::add(ref::mul(a, z[i]), ref::mul(b, i + 1 < n ? z[i + 1] : z[0]))); break;
            case 3: o.push_back(ref::add(ref::mul(a, z[i]), Ball((double) n))); break;
            default: o.push_back(ref::add(ref::mul(ref::mul(a, z[i]), z[i]), b)); break;
        }
        return o;
    };
    u.d = [q](size_t i, size_t n, Ball y) {
        switch (q.dkind) {
        case 0: return Ball(q.d);
        case 1: return ref::add(Ball(q.d), Ball((i + 1) * 0.125));
        case 2: return ref::mul(Ball(q.d), y);
        default: return ref::add(Ball(q.d), Ball(n * 0.125));
        }
    };
    ref::custom[name] = u; (void) trainable;
}
struct World {      // a few libraries, and the names of all functions in them
    std::vector<std::string> full, path; std::vector<bool> trainable;
    World(Case &c, int nlibs) {
        for (int l = 0; l < nlibs; l++) {
            std::string s = g_template, p; size_t at = 0;
            int form = (int) c.draw(7); char b[64]; snprintf(b, sizeof b, "%d", l);
            switch (form) {
            case 0: p = std::string("./l") + b + ".so"; break;
            case 1: { char *d = getcwd(nullptr, 0); p = std::string(d) + "/abs" + b + ".so"; free(d); break; }
            case 2: mkdir("a directory", 0777); p = std::string("./a directory/a file ") + b; break;
            case 3: p = std::string("./@") + b + "@lib@.so"; break;
            case 4: p = std::string("./100%s%n%d") + b + ".so"; break;
            case 5: p = std::string("./\xc3\xa6\xc3\xb8\xc3\xa5") + b; break;
            case 6: { int deep = 1 + (int) c.draw(18); p = "."; for (int i = 0; i < deep; i++) { p += "/" + std::string(1 + 50 * (i % 2), 'd'); mkdir(p.c_str(), 0777); } p += std::string("/x") + b; break; }
            default: p = std::string("./.so.") + b; break;
            }
            for (size_t k = 0; k < SYM.size(); k++) {
                at = s.find("ACT-PARAM-1", at); if (at == std::string::npos) { fprintf(stderr, "no parameters in the template\n"); _exit(3); }
                Param q; memcpy(&q, &s[at], sizeof q);
                q.kind = (int) c.draw(4); q.dkind = (int) c.draw(3);
                q.a = (float) c.range(-8, 8) / 8; q.b = (float) c.range(-8, 8) / 32; q.d = (float) c.range(-8, 8) / 8;
                memcpy(&s[at], &q, sizeof q); at += sizeof q;
                if ((size_t) q.id != k) { fprintf(stderr, "the parameters are out of order\n"); _exit(3); }
                full.push_back(SYM[k] + "@" + p); path.push_back(p); trainable.push_back(k < 6); define(full.back(), q, k < 6);
            }
            write_file(p, s);
        }
    }
};
static std::string describe(const Net &n) { std::string s = std::to_string(n.nin()); for (int i = 0; i < n.L(); i++) s += " " + (n.acts[i].size() > 60 ? n.acts[i].substr(0, 25) + "..." + n.acts[i].substr(n.acts[i].size() - 25) : n.acts[i]) + ":" + std::to_string(n.sizes[i + 1]); return s; }
struct Data { int n; std::vector<float> X; std::vector<std::vector<Ball>> want; };
// everything but training; returns a complaint
static std::string look(const Lib &L, nn_t *nn, const Net &n, const Data &d, std::vector<float> *bits) {
    char e[1024];
    if (!nn) return "no network";
    if (L.sh_n_layers(nn) != n.L()) return "the number of layers is wrong";
    for (int l = 0; l < n.L(); l++) { if (L.sh_n_in(nn, l) != n.sizes[l] || L.sh_n_out(nn, l) != n.sizes[l + 1]) return "the sizes are wrong"; const char *a = L.sh_act(nn, l); if (!a || n.acts[l] != a) return "layer " + std::to_string(l) + " has the activation '" + (a ? a : "none") + "' instead of '" + n.acts[l] + "'"; }
    if (!same_bits(params(L, nn), n.flat())) return "the parameters are wrong";
    size_t no = n.nout(); std::vector<float> y((size_t) d.n * no, -77), z = y;
    for (int i = 0; i < d.n; i++) L.neuralnet_predict(nn, &d.X[(size_t) i * n.nin()], &y[i * no]);
    L.neuralnet_predict_batch(nn, d.n, d.X.data(), z.data());
    for (int k = 0; k < 2; k++) for (size_t i = 0; i < y.size(); i++) { float v = (k ? z : y)[i]; const Ball &w = d.want[i / no][i % no];
        if (!ref::inside(v, w)) { snprintf(e, sizeof e, "%s: output %zu of sample %zu is %.9g instead of %.9g +- %.3g", k ? "batch prediction" : "prediction", i % no, i / no, v, w.c, w.r); return e; } }
    metric_f m[2] = {L.get_metric_func("mae"), nullptr}; float r = 0; std::vector<float> t(y.size(), 0.5f); L.evaluate(nn, d.n, d.X.data(), t.data(), m, &r);
    double s = 0, tol = 0; for (size_t i = 0; i < y.size(); i++) { const Ball &w = d.want[i / no][i % no]; s += std::fabs(w.c - 0.5); tol += w.r + (w.mag() + 0.5) * 1e-5; }
    if (std::fabs(r - s / y.size()) > 2 * tol / y.size() + 1e-30) { snprintf(e, sizeof e, "evaluation gives %.9g instead of %.9g", r, s / y.size()); return e; }
    if (bits) *bits = y;
    return "";
}
static void use_(Case &c, bool many) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; Scratch scratch; L.sh_threads(c.chance(20) ? 3 : 1);
    World w(c, many ? (int) gen_large(c, 3, 150) : 1 + (int) c.draw(2));
    NetOpt o; o.maxl = many ? (int) gen_large(c, 4, 150) : 4; o.maxsize = many ? 4 : 20; o.softmax_hidden = false; o.wscale = many ? 1.0 : 0.5; Net n = gen_net(c, o);
    if (many) { c.label("libraries %s", w.path.size() < 20 * SYM.size() ? "3-19" : w.path.size() < 64 * SYM.size() ? "20-63" : "64+"); c.label("layers %s", n.L() < 10 ? "1-9" : n.L() < 50 ? "10-49" : "50+"); }
    bool train = true; int customs = 0;
    bool forward_only = c.chance(25);
    for (auto &a : n.acts) if (c.chance(65)) { size_t k; do k = c.draw(w.full.size() - 1); while (!w.trainable[k] && !forward_only); a = w.full[k]; customs++; if (!w.trainable[k]) train = false; }
    if (!customs) { size_t k = c.draw(5); n.acts[c.draw(n.L() - 1)] = w.full[k]; }
    std::string loss;
    if (n.acts.back() == "softmax") loss = "categorical_crossentropy"; else loss = n.acts.back() == "sigmoid" && c.flip() ? "binary_crossentropy" : c.pick(std::vector<std::string>{"mean_squared_error", "mean_absolute_error"});
    Data d; d.n = 1 + (int) c.small(12); d.X.resize((size_t) d.n * n.nin()); fill(c, d.X.data(), d.X.size(), 1);
    std::vector<ref::Trace> tr; for (int i = 0; i < d.n; i++) { tr.push_back(ref::forward(n, &d.X[(size_t) i * n.nin()])); if (!tr.back().sane) c.discard(); d.want.push_back(tr.back().a.back()); }
    c.note("%s %s loss=%s n=%d", L.name.c_str(), describe(n).c_str(), loss.c_str(), d.n); c.nontrivial(); c.label("variant %s", L.name.c_str()); if (!train) c.label("forward only");
    // a process of its own, which will load the model without having created it
    int to[2], from[2]; if (pipe(to) || pipe(from)) _exit(3);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        char x; close(to[1]); close(from[0]); if (read(to[0], &x, 1) != 1) _exit(0);
        nn_t *m = L.neuralnet_load("model.npz"); std::string s = look(L, m, n, d, nullptr);
        if (s.empty()) { L.neuralnet_save(m, "again.npz"); L.neuralnet_free(m); m = L.neuralnet_load("again.npz"); s = look(L, m, n, d, nullptr); if (!s.empty()) s = "saved again: " + s; }
        if (m) L.neuralnet_free(m);
        s += '\n'; if (write(from[1], s.data(), s.size()) < 0) {}
        fflush(stdout); fflush(stderr); _exit(0);
    }
    close(to[0]); close(from[1]);
    nn_t *nn = make(L, n); std::string s; std::vector<float> bits, bits2;
    s = look(L, nn, n, d, &bits); CHECK(c, s.empty(), "%s: %s: %s", L.name.c_str(), describe(n).c_str(), s.c_str());
    if (c.flip()) L.neuralnet_set_loss(nn, loss.c_str());
    L.neuralnet_save(nn, "%s.npz", "model");
    bool early = c.flip(); if (early) { L.neuralnet_free(nn); nn = nullptr; }
    nn_t *m = L.neuralnet_load("model.npz"); s = look(L, m, n, d, &bits2); CHECK(c, s.empty(), "%s: %s: saved and loaded: %s", L.name.c_str(), describe(n).c_str(), s.c_str());
    if (early) nn = m; else L.neuralnet_free(m);
    { char b[1024]; size_t k = 0; if (write(to[1], "x", 1) != 1) _exit(3); for (ssize_t g; k < sizeof b - 1 && (g = read(from[0], b + k, sizeof b - 1 - k)) > 0;) k += g;
      int st; waitpid(pid, &st, 0); std::string r(b, k);
      CHECK(c, r == "\n", "%s: %s: loaded by another process: %s (status %d)", L.name.c_str(), describe(n).c_str(), r.c_str(), st); }
    if (train) {
        L.neuralnet_set_loss(nn, loss.c_str());
        std::vector<float> Y((size_t) d.n * n.nout()); Rng r(c.seed64()); for (float &y : Y) y = (float) r.unit();
        float *g = L.sh_malloc(n.np() * 4); std::vector<Ball> mean(n.np()); bool all = true;
        for (int i = 0; i < d.n; i++) {
            bool sane; auto want = ref::gradient(n, tr[i], loss, &Y[(size_t) i * n.nout()], sane); if (!sane) { all = false; continue; }
            L.neuralnet_backpropagation(nn, &d.X[(size_t) i * n.nin()], &Y[(size_t) i * n.nout()], g);
            for (size_t q = 0; q < want.size(); q++) { CHECK(c, ref::inside(g[q], want[q]), "%s: %s: %s: gradient element %zu is %.9g instead of %.9g +- %.3g", L.name.c_str(), describe(n).c_str(), loss.c_str(), q, g[q], want[q].c, want[q].r); mean[q].c += want[q].c; mean[q].r += want[q].r + want[q].mag() * ref::U * (d.n + 2); if (want[q].mag() > 1e15) all = false; }
        }
        L.sh_free(g);
        if (all) {      // one step of gradient descent
            float v[8] = {0.25f}; opt_t *opt = L.sh_opt_new(0, nn, 8 | 3, d.n, 0, nullptr, om::noprogress, 1, v); float res[2];
            L.optimizer_run_epoch(opt, d.n, d.X.data(), Y.data(), 0, nullptr, nullptr, res);
            auto p0 = n.flat(), p1 = params(L, nn); c.label("trained");
            for (size_t q = 0; q < p1.size(); q++) { Ball e = ref::sub(Ball(p0[q]), ref::widen(ref::scale(mean[q], 0.25 / d.n), 6 * ref::U, ref::TINY)); CHECK(c, ref::inside(p1[q], e, 2), "%s: %s: %s: after one step of SGD with %d samples parameter %zu is %.9g instead of %.9g +- %.3g", L.name.c_str(), describe(n).c_str(), loss.c_str(), d.n, q, p1[q], e.c, e.r); }
            L.sh_opt_free(opt);
        }
    } else { L.neuralnet_set_loss(nn, loss.c_str()); s = look(L, nn, n, d, nullptr); CHECK(c, s.empty(), "%s: %s: after setting the loss: %s", L.name.c_str(), describe(n).c_str(), s.c_str()); }
    L.neuralnet_free(nn);
}
static void use(Case &c) { use_(c, false); }
static void many(Case &c) { use_(c, true); }
// names that lead nowhere
static std::string bytes(Case &c, size_t n) { Rng r(c.seed64()); int style = (int) c.draw(3); std::string s; for (size_t i = 0; i < n; i++) s += style == 0 ? (char) ('a' + r.below(26)) : style == 1 ? (char) (1 + r.below(255)) : style == 2 ? "%sn$0d"[r.below(6)] : "@/. l"[r.below(5)]; return s; }
static std::string noname(Case &c, const World &w) {
    size_t len = c.chance(10) ? c.small(3000000) : c.chance(30) ? c.small(20000) : c.small(200);
    std::string s;
    switch (c.draw(11)) {
    case 0: s = bytes(c, len + 1); break;
    case 1: s = "missing@" + w.path[0]; break;
    case 2: s = "f@./no such library.so"; break;
    case 3: s = bytes(c, len + 1) + "@" + w.path[0]; break;
    case 4: s = "f@" + bytes(c, len + 1); break;
    case 5: s = "f@."; break;
    case 6: write_file("text", "this is no library"); s = "f@./text"; break;
    case 7: write_file("cut.so", g_template.substr(0, c.draw(63))); s = "f@./cut.so"; break;    // (the dynamic linker does not survive every longer piece)
    case 8: { static const char *A[] = {"@", "@@", "f@", "Relu", "relu ", " relu", "RELU", "relu\n", "sigmoid2", "softma", "tanh_act", "relu_derivative", "linear,relu", "%s", "%n%n%n", "f@/dev/null", "swish_@./l0.so"}; s = A[c.draw(16)]; break; }
    case 9: s = "swish@" + bytes(c, 1 + c.small(300)) + "@" + w.path[0]; break;
    case 10: s = std::string("f@") + "./" + std::string(len, '/') + "nothing"; break;
    default: s = bytes(c, len) + "relu"; break;
    }
    for (char &x : s) if (x == 0) x = '?';
    return s;
}
static bool resolves(const std::string &s) {        // to a symbol of this process
    for (auto &a : ACTS) if (s == a) return true;
    size_t at = s.find('@'); if (at == std::string::npos) return false;
    if (ref::custom.count(s)) return true;
    std::string sym = s.substr(0, at), lib = s.substr(at + 1);
    if (lib.empty()) return sym.empty() || (sym.size() < 10000 && dlsym(RTLD_DEFAULT, sym.c_str()));
    if (lib.size() < 4000 && access(lib.c_str(), F_OK) == 0 && sym.size() < 300) for (auto &k : ref::custom) if (k.first.substr(0, k.first.find('@')) == sym) { struct stat st; if (lib.find('/') != std::string::npos && stat(lib.c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_size == (off_t) g_template.size()) return true; }
    return false;
}
static void fallback(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; Scratch scratch; World w(c, 1);
    NetOpt o; o.maxl = 3; o.maxsize = 9; o.softmax_hidden = false; o.wscale = 0.5; Net n = gen_net(c, o), lin = n;
    int k = 0; for (int i = 0; i < n.L(); i++) if (c.flip() || (!k && i == n.L() - 1)) { do n.acts[i] = noname(c, w); while (resolves(n.acts[i])); lin.acts[i] = "linear"; k++; } else if (c.chance(40)) n.acts[i] = lin.acts[i] = w.full[c.draw(5)];
    int how = (int) c.draw(2);
    c.note("%s %s", L.name.c_str(), how == 0 ? "created" : how == 1 ? "loaded" : "gone"); for (auto &a : n.acts) c.note(" '%s%s' (%zu)", a.substr(0, 60).c_str(), a.size() > 60 ? "..." : "", a.size()); c.nontrivial(); c.label(how == 0 ? "created" : how == 1 ? "loaded" : "gone");
    Data d; d.n = 3; d.X.resize((size_t) d.n * n.nin()); fill(c, d.X.data(), d.X.size(), 1);
    Capture err(2); nn_t *nn;
    if (how == 0) nn = make(L, n);
    else {
        list_t *l = nullptr; size_t el = 1; for (auto &a : n.acts) el = std::max(el, a.size()); if (c.flip()) el += c.small(20);
        if (how == 2) { for (int i = 0; i < n.L(); i++) n.acts[i] = lin.acts[i] = ACTS[c.draw(ACTS.size() - 2)]; int i = (int) c.draw(n.L() - 1); n.acts[i] = w.full[c.draw(7)]; lin.acts[i] = "linear"; el = n.acts[i].size() + 20; unlink(w.path[0].c_str()); }
        for (int i = 0; i < n.L(); i++) { size_t a[2] = {(size_t) n.sizes[i], (size_t) n.sizes[i + 1]}, b[1] = {a[1]}; l = L.npy_array_list_append(l, L.sh_npy_new(2, a, 'f', 4, '<', 0, (char *) n.w[i].data(), n.w[i].size() * 4), "weight_%d.npy", i); l = L.npy_array_list_append(l, L.sh_npy_new(1, b, 'f', 4, '<', 0, (char *) n.b[i].data(), n.b[i].size() * 4), "bias_%d.npy", i); }
        std::string t(el * n.L(), 0); for (int i = 0; i < n.L(); i++) memcpy(&t[i * el], n.acts[i].data(), n.acts[i].size());
        size_t a[1] = {(size_t) n.L()}; l = L.npy_array_list_append(l, L.sh_npy_new(1, a, 'S', el, '|', 0, t.data(), t.size()), "activations.npy");
        L.npy_array_list_save("odd.npz", l); L.npy_array_list_free(l); err.reset();
        nn = L.neuralnet_load("odd.npz");
    }
    std::string said = err.text(); err.reset();
    CHECK(c, nn, "%s: no network with the activation '%s'", L.name.c_str(), n.acts[0].substr(0, 200).c_str());
    CHECK(c, !said.empty(), "%s: no warning that the activation '%s' cannot be found", L.name.c_str(), n.acts[0].substr(0, 200).c_str());
    for (int i = 0; i < d.n; i++) { auto t = ref::forward(lin, &d.X[(size_t) i * n.nin()]); if (!t.sane) c.discard(); d.want.push_back(t.a.back()); }
    std::string s = look(L, nn, lin, d, nullptr); CHECK(c, s.empty(), "%s: %s", L.name.c_str(), s.substr(0, 500).c_str());
    L.neuralnet_set_loss(nn, lin.acts.back() == "softmax" ? "categorical_crossentropy" : "mse"); L.neuralnet_save(nn, "saved.npz"); L.neuralnet_free(nn);
    nn = L.neuralnet_load("saved.npz"); s = look(L, nn, lin, d, nullptr); CHECK(c, s.empty(), "%s: saved and loaded: %s", L.name.c_str(), s.substr(0, 500).c_str());
    L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs(); if (!read_file(getenv("CUSTOM"), g_template)) { fprintf(stderr, "CUSTOM has to be the template library\n"); return 3; }
    bool san = getenv("SAN") && *getenv("SAN");
    return main_("P23", {{"use", use, san ? 12000 : 50000, san ? 200000 : 1000000}, {"many", many, san ? 1200 : 4000, san ? 20000 : 80000, 60}, {"fallback", fallback, san ? 8000 : 30000, san ? 100000 : 500000}},
                 "random networks mixing built-in activations and functions of one to three generated libraries (same symbols, other behaviour; some without derivative) at paths of many forms: predictions, batches, gradients, a training step, saving and loading here and in another process, against the ball-arithmetic model; and names of all forms that lead nowhere, created and loaded; all non-trivial", argc, argv);
}
