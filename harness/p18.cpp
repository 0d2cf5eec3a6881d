// P18 - model checkpoint
#include "optmodel.hpp"
using namespace pbt;

struct Cp { cb_t *cb; std::string file; int idx; bool greater; bool any = false; float best = 0; std::vector<float> want; bool tampered = false; };
static std::string gen_name(Case &c, int k) {
    static const std::vector<std::string> P = {"a", "B", "7", "%", "%s", "%d", "%n", "%%", "%5.3f", " ", "-", "_", ".", "\xc3\xa6", "'", "\"", "$x", "*", "\\", "#", "%1$s", "npz"};
    std::string s = std::to_string(k); int len = (int) c.small(60);
    for (int i = 0; i < len; i++) s += c.pick(P);
    if (c.flip()) s += ".npz";
    if (c.chance(5)) s += std::string(200, 'x');
    if (s.size() > 128) s.resize(128);
    return s;
}
static void verify(Case &c, const Lib &L, const Net &n, Cp &p, int e) {
    if (p.tampered) {           // no improvement: our marker has to be still there
        std::string s; CHECK(c, read_file(p.file, s) && s == "marker", "epoch %d: the checkpoint '%s' was written although %s", e, p.file.c_str(), "the value is not strictly better than the best");
        return;
    }
    nn_t *m = L.neuralnet_load(p.file.c_str());
    CHECK(c, m, "epoch %d: the checkpoint '%s' cannot be loaded", e, p.file.c_str());
    CHECK(c, L.sh_n_layers(m) == n.L(), "the checkpoint has %d layers instead of %d", L.sh_n_layers(m), n.L());
    for (int l = 0; l < n.L(); l++) CHECK(c, L.sh_n_in(m, l) == n.sizes[l] && L.sh_n_out(m, l) == n.sizes[l + 1] && n.acts[l] == L.sh_act(m, l), "layer %d of the checkpoint is not that of the model", l);
    CHECK(c, same_bits(params(L, m), p.want), "epoch %d: the checkpoint '%s' does not hold the parameters of the best epoch (best value %.9g)", e, p.file.c_str(), p.best);
    L.neuralnet_free(m);
}
static Cp gen_cp(Case &c, const Lib &L, int nm, bool always_valid, int k, bool first) {
    Cp p; int mask = (int) c.draw(15); if (!first) mask |= 1;
    p.file = mask & 1 ? gen_name(c, k) : "checkpoint.npz";
    if ((mask & 1) && c.chance(15)) { mkdir("sub dir%s", 0777); p.file = "sub dir%s/" + p.file; if (p.file.size() > 128) p.file.resize(128); }
    if (!(mask & 1) && c.flip()) mask |= 16;
    p.idx = mask & 2 ? (int) c.draw(always_valid ? 2 * nm - 1 : nm - 1) : -1;
    p.greater = mask & 4 ? c.flip() : false;
    c.note(" ['%s' index %d %s mask %d]", p.file.c_str(), p.idx, p.greater ? "greater" : "smaller", mask);
    return p.cb = nullptr, p.cb = L.sh_mcp_new(mask & 15, mask & 1 ? strdup(p.file.c_str()) : nullptr, p.idx, p.greater, mask & 8 ? c.flip() : 0), p;
}
static void step(Case &c, const Lib &L, opt_t *opt, nn_t *nn, const Net &n, std::vector<Cp> &ps, const float *r, int nm, int valid, int e, bool tamper) {
    std::vector<float> now = params(L, nn);
    for (size_t k = 0; k < ps.size(); k++) {
        Cp &p = ps[k];
        float v = r[p.idx < 0 ? (valid ? nm : 0) : p.idx];
        bool better = !p.any || (p.greater ? v > p.best : v < p.best);
        if (better) { p.any = true; p.best = v; p.want = now; p.tampered = false; }
        else if (tamper && c.chance(30)) { write_file(p.file, "marker"); p.tampered = true; }
        L.sh_cb_run(p.cb, opt, r, valid);
        CHECK(c, same_bits(params(L, nn), now), "the checkpoint callback changed the network");
    }
    for (auto &p : ps) verify(c, L, n, p, e);
}
static void history(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Scratch scratch;
    NetOpt no; no.maxl = 3; no.maxsize = 5; no.wscale = 0.5; Net n = gen_any(c, no, 20000, 1);
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, "mse");
    int nm = 1 + (int) c.draw(c.chance(3) ? 400 : c.chance(5) ? 60 : 4), vmode = (int) c.draw(2), k = n.np() < 500 && c.chance(2) ? (int) gen_large(c, 4, 80) : 1 + (int) c.draw(2), epochs = 1 + (int) c.small(n.np() < 500 && k < 4 && c.chance(3) ? 600 : 25); bool tamper = c.flip();
    std::vector<metric_f> mf; for (int i = 0; i < nm; i++) mf.push_back(L.get_metric_func(ref::METRICS[c.draw(6)].c_str())); mf.push_back(nullptr);
    opt_t *opt = L.sh_opt_new((int) c.draw(3), nn, 4, 0, 0, mf.data(), nullptr, 0, nullptr);
    c.note("%s %d metrics, validation %s, %d epochs", n.str().c_str(), nm, vmode == 0 ? "never" : vmode == 1 ? "always" : "sometimes", epochs);
    std::vector<Cp> ps; for (int i = 0; i < k; i++) { ps.push_back(gen_cp(c, L, nm, vmode == 1, i, i == 0)); CHECK(c, ps.back().cb, "no callback"); }
    if (c.chance(20)) write_file(ps[0].file, "something old");
    if (k > 3) c.label("more than 3 callbacks");
    History h(c); Rng r(c.seed64());
    for (int e = 0; e < epochs; e++) {
        int valid = vmode == 2 ? c.flip() : vmode;
        Buf res(valid ? 2 * nm : nm, 0, true); for (size_t i = 0; i < res.n; i++) res[i] = h.next(i);
        res.readonly();
        for (auto &w : n.w) for (float &x : w) x = (float) r.normal(); for (auto &b : n.b) for (float &x : b) x = (float) r.normal();
        put(L, nn, n);
        step(c, L, opt, nn, n, ps, res.p, nm, valid, e, tamper);
    }
    if (epochs > 2) c.nontrivial(); c.label("style %d", h.style); if (tamper) c.label("tampering");
    for (auto &p : ps) L.sh_cb_free(p.cb);
    L.sh_opt_free(opt); L.neuralnet_free(nn);
}
static void training(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Scratch scratch;
    Net n = small_net(c); std::string loss = om::gen_loss(c, n);
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, loss.c_str()); L.sh_threads(1);
    int ns = 1 + (int) c.small(20), nv = c.flip() ? 1 + (int) c.small(10) : 0, epochs = 1 + (int) c.draw(20);
    om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), loss), v = om::gen_data(c, nv, n.nin(), n.nout(), loss);
    float set[8] = {c.pick(std::vector<float>{0.05f, 0.5f, 0.001f})};
    opt_t *opt = L.sh_opt_new((int) c.draw(3), nn, 11, 1 + (int) c.small(8), c.flip(), nullptr, nullptr, 1, set);
    c.note("%s %s n=%d valid=%d epochs=%d", n.str().c_str(), loss.c_str(), ns, nv, epochs);
    std::vector<Cp> ps; for (int i = 0; i < 2; i++) ps.push_back(gen_cp(c, L, 1, nv > 0, i, i == 0));
    float res[2];
    for (int e = 0; e < epochs; e++) {
        L.optimizer_run_epoch(opt, ns, d.X.data(), d.Y.data(), nv, nv ? v.X.data() : nullptr, nv ? v.Y.data() : nullptr, res);
        if (!(std::fabs(res[0]) < 1e30) || (nv && !(std::fabs(res[1]) < 1e30))) break;
        step(c, L, opt, nn, n, ps, res, 1, nv > 0, e, false);
    }
    c.nontrivial();
    for (auto &p : ps) L.sh_cb_free(p.cb);
    L.sh_opt_free(opt); L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs();
    return main_("P18", {{"history", history, 24000, 400000}, {"training", training, 8000, 120000}},
                 "histories of result vectors with random parameters per epoch (history) or real training (training), one to three checkpoint writers with random settings and file names in lockstep with a model; the file is loaded after every epoch, and replaced by a marker to see rewrites; non-trivial: more than two epochs", argc, argv);
}
