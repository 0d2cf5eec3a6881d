// P17 - early stopping
#include "optmodel.hpp"
using namespace pbt;

struct Mon { cb_t *cb; int patience, idx; bool greater; bool any = false; float best = 0; int since = 0; bool stop = false; };
static Mon gen_mon(Case &c, const Lib &L, int nm, bool always_valid, bool lng = false) {
    Mon m; int mask = (int) c.draw(7);
    m.patience = mask & 1 ? (c.chance(5) ? 2147483647 : lng ? (int) (c.chance(20) ? gen_large(c, 1000, 140000) : c.draw(1500)) : (int) c.small(12)) : 10;
    m.idx = mask & 2 ? (int) c.draw(always_valid ? 2 * nm - 1 : nm - 1) : -1;
    m.greater = mask & 4 ? c.flip() : false;
    m.cb = L.sh_es_new(mask, m.patience, m.idx, m.greater);
    CHECK(c, m.cb, "no monitor");
    c.note(" [patience %d index %d %s mask %d]", m.patience, m.idx, m.greater ? "greater" : "smaller", mask);
    return m;
}
static void check(Case &c, const Lib &L, opt_t *opt, std::vector<Mon> &ms, const float *r, int nm, int valid, int e) {
    for (size_t k = 0; k < ms.size(); k++) {
        Mon &m = ms[k];
        float v = r[m.idx < 0 ? (valid ? nm : 0) : m.idx];
        bool better = !m.any || (m.greater ? v > m.best : v < m.best);
        if (better) { m.any = true; m.best = v; m.since = 0; } else m.since++;
        if (m.since > m.patience) m.stop = true;
        L.sh_cb_run(m.cb, opt, r, valid);
        for (int q = 0; q < 2; q++)
            CHECK(c, (L.sh_es_stop(m.cb) != 0) == m.stop, "monitor %zu (patience %d, index %d, %s is better) %s after epoch %d: %d epochs without improvement on %.9g (now %.9g)", k, m.patience, m.idx,
                  m.greater ? "greater" : "smaller", m.stop ? "does not ask to stop" : "asks to stop", e, m.since, m.best, v);
    }
}
static void history_(Case &c, bool lng) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Net n; n.sizes = {1, 1}; n.acts = {"linear"}; n.w = {{1}}; n.b = {{0}};
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, "mse");
    bool forever = lng && c.chance(4); int nm = 1 + (int) c.draw(forever ? 2 : c.chance(3) ? 400 : c.chance(5) ? 60 : 5), vmode = (int) c.draw(2), k = lng && c.chance(5) ? (int) gen_large(c, 5, 150) : 1 + (int) c.draw(3), epochs = lng ? (int) (forever ? gen_large(c, 4000, 150000) : c.draw(4000)) : (int) c.small(60);
    std::vector<metric_f> mf; for (int i = 0; i < nm; i++) mf.push_back(L.get_metric_func(ref::METRICS[c.draw(6)].c_str())); mf.push_back(nullptr);
    bool deflt = c.chance(20); if (deflt) nm = 1;
    opt_t *opt = L.sh_opt_new((int) c.draw(3), nn, deflt ? 0 : 4, 0, 0, mf.data(), nullptr, 0, nullptr);
    c.note("%d metrics, validation %s, %d epochs", nm, vmode == 0 ? "never" : vmode == 1 ? "always" : "sometimes", epochs);
    std::vector<Mon> ms; for (int i = 0; i < k; i++) ms.push_back(gen_mon(c, L, nm, vmode == 1, lng));
    if (k > 4) epochs = std::min(epochs, 3000);
    if (epochs > 20000) c.label("more than 20000 epochs"); if (k > 4) c.label("more than 4 monitors");
    History h(c); c.label("style %d", h.style);
    for (int e = 0; e < epochs; e++) {
        int valid = vmode == 2 ? c.flip() : vmode;
        Buf r(valid ? 2 * nm : nm, 0, true); for (size_t i = 0; i < r.n; i++) r[i] = h.next(i);
        r.readonly();
        check(c, L, opt, ms, r.p, nm, valid, e);
    }
    bool st = false; for (auto &m : ms) st |= m.stop;
    if (st) c.label("stops"); else c.label("goes on");
    if (epochs > 2) c.nontrivial();
    for (auto &m : ms) L.sh_cb_free(m.cb);
    L.sh_opt_free(opt); L.neuralnet_free(nn);
}
static void history(Case &c) { history_(c, false); }
static void lengthy(Case &c) { history_(c, true); }
// the documented use: real training
static void training(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Net n = small_net(c); std::string loss = om::gen_loss(c, n);
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, loss.c_str()); L.sh_threads(1);
    int ns = 1 + (int) c.small(20), nv = c.flip() ? 1 + (int) c.small(10) : 0, epochs = 1 + (int) c.draw(30);
    om::Data d = om::gen_data(c, ns, n.nin(), n.nout(), loss), v = om::gen_data(c, nv, n.nin(), n.nout(), loss);
    float set[8] = {c.pick(std::vector<float>{0.05f, 0.5f, 0.001f})};
    opt_t *opt = L.sh_opt_new((int) c.draw(3), nn, 11, 1 + (int) c.small(8), c.flip(), nullptr, nullptr, 1, set);
    c.note("%s %s n=%d valid=%d epochs=%d", n.str().c_str(), loss.c_str(), ns, nv, epochs);
    std::vector<Mon> ms; for (int i = 0; i < 2; i++) ms.push_back(gen_mon(c, L, 1, nv > 0));
    float res[2];
    for (int e = 0; e < epochs; e++) {
        L.optimizer_run_epoch(opt, ns, d.X.data(), d.Y.data(), nv, nv ? v.X.data() : nullptr, nv ? v.Y.data() : nullptr, res);
        if (!(std::fabs(res[0]) < 1e30) || (nv && !(std::fabs(res[1]) < 1e30))) break;
        check(c, L, opt, ms, res, 1, nv > 0, e);
    }
    c.nontrivial();
    for (auto &m : ms) { if (m.stop) c.label("stops"); L.sh_cb_free(m.cb); }
    L.sh_opt_free(opt); L.neuralnet_free(nn);
}
int main(int argc, char **argv) {
    libs();
    return main_("P17", {{"history", history, 60000, 2000000}, {"lengthy", lengthy, 2000, 60000}, {"training", training, 20000, 300000}},
                 "histories of result vectors with ties, plateaus, trends and one-ulp differences (history) or real training (training), observed by one to four monitors with random settings in lockstep with a model; non-trivial: more than two epochs", argc, argv);
}
