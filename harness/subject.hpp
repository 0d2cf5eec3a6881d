// subject.hpp - a network with its optimizer and callbacks, living a random history which is determined by its seed.
// Everything observable goes to the trace.
#pragma once
#include "optmodel.hpp"
using namespace pbt;
static void my_progress(int, int, const char *, ...) {}
struct Out { const Lib &L; float *p; size_t n; Out(const Lib &l, size_t k) : L(l), p(l.sh_malloc(k * 4 + 64)), n(k) {} ~Out() { L.sh_free(p); } float *data() { return p; } size_t size() { return n; } };   // always aligned the same way
// a caller's buffer of exactly n floats at some alignment
struct EB {
    char *m; float *p; size_t n;
    EB(Rng &r, size_t k, bool wide) : n(k) { size_t off = wide ? r.below(16) : 0; m = (char *) malloc((k + off) * 4 + (k + off == 0)); p = (float *) m + off; }
    EB(Rng &r, const std::vector<float> &v, size_t k, bool wide) : EB(r, k, wide) { memcpy(p, v.data(), k * 4); }
    EB(const EB &) = delete; ~EB() { free(m); }
};
struct Subject {
    bool wide = false; std::vector<char *> names; std::string pending;
    const Lib &L; Rng r; int id; Net n; std::string loss; nn_t *nn = nullptr; opt_t *opt = nullptr; std::vector<cb_t *> es, cp, lg; std::vector<std::string> files; om::Data d, v;
    std::string trace; std::vector<float> res; int nm = 1; bool valid = false, have = false; std::vector<metric_f> mf; int nth = 0; std::vector<std::string> ops;
    Subject(Case &c, const Lib &L_, int id_, int maxsize = 9) : wide(maxsize > 9), L(L_), r(c.seed64()), id(id_), n(gen(c, maxsize)) {
        loss = om::gen_loss(c, n);
        d = om::gen_data(c, 1 + (int) c.small(30), n.nin(), n.nout(), loss); v = om::gen_data(c, 1 + (int) c.small(10), n.nin(), n.nout(), loss);
    }
    static Net gen(Case &c, int maxsize) { NetOpt o; o.maxl = maxsize > 9 ? 5 : 3; o.maxsize = maxsize; o.softmax_hidden = false; o.wscale = 0.5; return gen_any(c, o, 12000, 2); }
    void out(const char *what, const float *p, size_t k) { trace += what; trace += ":"; for (size_t i = 0; i < k; i++) { char b[32]; if (std::isnan(p[i])) snprintf(b, sizeof b, " nan"); else snprintf(b, sizeof b, " %a", p[i]); trace += b; } trace += "\n"; }
    void out(const std::string &s) { trace += s + "\n"; }
    std::string name(const char *what) { char b[64]; snprintf(b, sizeof b, "s%d-%s-%d", id, what, nth++); return b; }
    const char *keep(const std::string &s) { names.push_back(strdup(s.c_str())); return names.back(); }
    // the network (if it goes too), the optimizer and the callbacks are freed in any order
    void free_opt(bool net = false) {
        int order[3] = {0, 1, 2}; for (int i = 2; i; i--) std::swap(order[i], order[r.below(i + 1)]);
        for (int k : order) {
            if (k == 0) { for (cb_t *x : es) L.sh_cb_free(x); for (cb_t *x : cp) L.sh_cb_free(x); for (cb_t *x : lg) L.sh_cb_free(x); es.clear(); cp.clear(); lg.clear(); }
            if (k == 1) { if (opt) L.sh_opt_free(opt); opt = nullptr; }
            if (k == 2 && net && nn) { L.neuralnet_free(nn); nn = nullptr; }
        }
        files.clear(); have = false;
        for (char *x : names) free(x); names.clear();
    }
    void step() {
        if (!nn) { nn = make(L, n); L.neuralnet_set_loss(nn, loss.c_str()); out("created"); return; }
        int op = (int) r.below(wide ? 32 : 20); if (op >= 20) { wide_step(op); return; }
        if (!opt && op < 12) {
            int kind = (int) r.below(4), mask = (int) r.below(256); float set[8] = {0.05f, 0.01f, 0.5f, 1, 0.8f, 0.85f, 0.95f, 0.01f};
            int gm = 2 | (int) r.below(16); mf.clear(); nm = gm & 4 ? 1 + (int) r.below(3) : 1;
            for (int i = 0; i < nm; i++) mf.push_back(L.get_metric_func(ref::METRICS[r.below(7)].c_str())); mf.push_back(nullptr);
            opt = L.sh_opt_new(kind, nn, wide ? gm : gm | 8, 1 + (int) r.below(12), r.below(2), mf.data(), my_progress, mask, set);
            out(std::string("optimizer ") + om::KIND[kind]);
            for (int i = 0; i < L.sh_opt_n_metrics(opt); i++) out(std::string("metric ") + L.sh_opt_metric_name(opt, i));
            return;
        }
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: {
            if (r.below(6) == 0) { d.n = 1 + (int) r.below(d.X.size() / d.nin); }
            valid = r.below(2); res.assign((wide ? 1 + valid : 2) * nm, -1);
            { EB X(r, d.X, (size_t) d.n * d.nin, wide), Y(r, d.Y, (size_t) d.n * d.nout, wide), VX(r, v.X, v.X.size(), wide), VY(r, v.Y, v.Y.size(), wide), R(r, res, res.size(), wide);
            L.optimizer_run_epoch(opt, d.n, X.p, Y.p, valid ? v.n : 0, valid ? VX.p : nullptr, valid ? VY.p : nullptr, R.p); res.assign(R.p, R.p + R.n); }
            have = true; out("epoch", res.data(), nm * (1 + valid)); auto p = params(L, nn); out("parameters", p.data(), p.size()); break; }
        case 5: case 6: case 7:
            if (es.size() + cp.size() + lg.size() < 4) {
                int k = (int) r.below(3);
                if (k == 0) { es.push_back(L.sh_es_new(1 | (int) r.below(8), (int) r.below(4), (int) r.below(nm), (int) r.below(2))); out("early stopping"); }
                if (k == 1) { files.push_back(name("cp") + ".npz"); cp.push_back(L.sh_mcp_new(1 | (int) r.below(8), keep(files.back()), (int) r.below(nm), (int) r.below(2), 0)); out("checkpoint"); }
                if (k == 2) { files.push_back(name("log")); lg.push_back(L.sh_log_new(2 | 4 | (int) r.below(2), (int) r.below(50), keep(files.back()), 1)); out("logger"); }
                break;
            } // fall through
        case 8: case 9: case 10: {
            if (!have) break;
            std::vector<float> f = res; for (float &x : f) if (r.below(3) == 0) x = (float) r.below(3);
            for (cb_t *x : es) { L.sh_cb_run(x, opt, f.data(), valid); out(L.sh_es_stop(x) ? "stop" : "go on"); }
            for (cb_t *x : cp) L.sh_cb_run(x, opt, f.data(), valid);
            for (cb_t *x : lg) L.sh_cb_run(x, opt, f.data(), valid);
            for (auto &s : files) {
                std::string t; if (!read_file(s, t)) { out(s + " is not there"); continue; }
                if (s.find("log") != std::string::npos) { out(s + " " + t); continue; }
                nn_t *m = L.neuralnet_load(s.c_str()); if (!m) { out(s + " cannot be loaded"); continue; }
                auto p = params(L, m); out(s.c_str(), p.data(), p.size()); L.neuralnet_free(m);
            }
            break; }
        case 11: free_opt(); out("optimizer freed"); break;
        case 12: { Out y(L, n.nout()); if (wide) { EB X(r, d.X, n.nin(), true), Y(r, n.nout(), true); L.neuralnet_predict(nn, X.p, Y.p); memcpy(y.p, Y.p, Y.n * 4); } else L.neuralnet_predict(nn, d.X.data(), y.data()); out("prediction", y.data(), y.size()); break; }
        case 13: { Out y(L, (size_t) v.n * n.nout()); if (wide) { EB X(r, v.X, v.X.size(), true), Y(r, (size_t) v.n * n.nout(), true); L.neuralnet_predict_batch(nn, v.n, X.p, Y.p); memcpy(y.p, Y.p, Y.n * 4); } else L.neuralnet_predict_batch(nn, v.n, v.X.data(), y.data()); out("predictions", y.data(), y.size()); break; }
        case 14: { float *g = L.sh_malloc(n.np() * 4 + (wide ? 0 : 64)); EB X(r, d.X, n.nin(), wide), Y(r, d.Y, n.nout(), wide); L.neuralnet_backpropagation(nn, X.p, Y.p, g); out("gradient", g, n.np()); L.sh_free(g); break; }
        case 15: { metric_f m[3] = {L.get_metric_func("mae"), L.get_metric_func("mse"), nullptr}; float y[2]; EB X(r, v.X, v.X.size(), wide), Y(r, v.Y, v.Y.size(), wide); L.evaluate(nn, v.n, X.p, Y.p, m, y); out("evaluation", y, 2); break; }
        case 16: { L.neuralnet_initialize(nn, nullptr); auto p = params(L, nn); out("initialised", p.data(), p.size()); put(L, nn, n); break; }
        case 17: { std::string f = name("model") + ".npz"; L.neuralnet_save(nn, "%s", f.c_str()); nn_t *m = L.neuralnet_load(f.c_str()); if (!m) { out("cannot be loaded"); break; } auto p = params(L, m); out("saved", p.data(), p.size()); L.neuralnet_free(m); break; }
        case 18: if (r.below(3) == 0) { free_opt(true); out("network freed"); } break;
        default: { auto p = params(L, nn); for (float &x : p) x = (float) r.sym() * 0.01f; { EB U(r, p, p.size(), wide); L.neuralnet_update(nn, U.p); } p = params(L, nn); out("updated", p.data(), p.size()); L.neuralnet_set_loss(nn, loss.c_str()); }
        }
    }
    // more of the interface
    npy_t *array() {
        static const char T[] = "fiub S"; char t = T[r.below(4)]; size_t e = t == 'f' ? 4 << r.below(2) : t == 'b' ? 1 : 1 << r.below(4); if (r.below(5) == 0) { t = 'S'; e = 1 + r.below(20); }
        int nd = (int) r.below(r.below(6) == 0 ? 9 : 4); size_t sh[8] = {0}, k = e; for (int i = 0; i < nd; i++) { sh[i] = r.below(nd > 4 ? 3 : 6); k *= sh[i]; }
        std::string b(k, 0); for (char &x : b) x = (char) ('A' + r.below(26));
        return L.sh_npy_new(nd, sh, t, e, t == 'S' || e == 1 ? '|' : '<', r.below(2), b.data(), b.size());
    }
    void out_array(const char *what, npy_t *a) {
        if (!a) { out(std::string(what) + " none"); return; }
        std::string s = what; size_t k = L.sh_npy_elem(a); for (int i = 0; i < L.sh_npy_ndim(a); i++) { k *= L.sh_npy_shape(a, i); s += " " + std::to_string(L.sh_npy_shape(a, i)); }
        out(s + " " + L.sh_npy_type(a) + std::string(L.sh_npy_data(a), k));
    }
    void wide_step(int op) {
        switch (op) {
        case 20: case 21: {
            list_t *l = nullptr; int k = (int) r.below(6); std::string f = name("list") + ".npz";
            for (int i = 0; i < k; i++) { npy_t *a = array(); list_t *q = r.below(2) ? L.npy_array_list_append(l, a, "array_%d_%s", i, r.below(4) ? "x" : "a name of some length, but not of more than eighty") : L.npy_array_list_prepend(l, a, "first %d", i); if (q) l = q; else L.npy_array_free(a); }
            out("list of " + std::to_string(L.npy_array_list_length(l)));
            if (k) { int w = r.below(2) ? L.npy_array_list_save(f.c_str(), l) : L.npy_array_list_save_compressed(f.c_str(), l, r.below(2) ? 8 : -1, (unsigned) r.below(10)); out("wrote " + std::to_string(w)); }
            L.npy_array_list_free(l);
            if (k) { l = L.npy_array_list_load(f.c_str()); for (list_t *i = l; i; i = L.sh_list_next(i)) out_array(L.sh_list_name(i), L.sh_list_array(i)); L.npy_array_list_free(l); }
            break; }
        case 22: case 23: {
            npy_t *a = array(); std::string f = name("array") + ".npy"; L.npy_array_save(f.c_str(), a); L.npy_array_free(a);
            a = r.below(2) ? L.npy_array_load(f.c_str()) : L.npy_array_mmap(f.c_str()); out_array("array", a);
            if (a) { L.npy_array_dump(a); L.npy_array_free(a); }
            if (r.below(4) == 0) { std::string t; read_file(f, t); if (!t.empty()) { t.resize(r.below(t.size())); write_file(f, t); a = L.npy_array_load(f.c_str()); out_array("cut", a); if (a) L.npy_array_free(a); a = L.npy_array_mmap(f.c_str()); if (a) L.npy_array_free(a); } }
            break; }
        case 24: { EB P(r, n.np(), true); L.neuralnet_get_parameters(nn, P.p); out("get_parameters", P.p, P.n); break; }
        case 25: {                                                     // go on with the network loaded from a file
            if (opt) break;
            std::string f = name("model") + ".npz"; L.neuralnet_save(nn, "%s", f.c_str()); nn_t *m = L.neuralnet_load(f.c_str()); out(m ? "loaded" : "cannot be loaded"); if (!m) break;
            L.neuralnet_free(nn); nn = m; L.neuralnet_set_loss(nn, loss.c_str()); break; }
        case 26: { nn_t *m = L.neuralnet_load("there is no such file.npz"); out(m ? "a network from nothing" : "no file"); if (m) L.neuralnet_free(m);
            std::string f = name("bad") + ".npz", t; L.neuralnet_save(nn, "%s", f.c_str()); read_file(f, t); if (t.size() > 10) { if (r.below(2)) t.resize(r.below(t.size())); else for (int i = 0; i < 3; i++) t[r.below(t.size())] ^= (char) (1 << r.below(8)); write_file(f, t); m = L.neuralnet_load(f.c_str()); if (m) L.neuralnet_free(m); } break; }
        case 27: { L.neuralnet_set_loss(nn, "no such loss"); out(L.sh_has_loss(nn) ? "a loss" : "no loss"); L.neuralnet_set_loss(nn, loss.c_str()); break; }
        case 28: { int k = (int) r.below(40); for (int i = 0; i <= k; i++) L.progress_ascii(i, k, "Train %d: ", i); L.neuralnet_save(nn, "%s/model.npz", "no/such/directory"); std::string f(300, 'x'); L.neuralnet_save(nn, "%s", f.c_str()); out("warnings"); break; }
        case 29: { int k = (int) r.below(4) ? (int) r.below(100) : 0; EB X(r, (size_t) k * n.nin(), true), Y(r, (size_t) k * n.nout(), true); for (size_t i = 0; i < X.n; i++) X.p[i] = (float) r.sym(); L.neuralnet_predict_batch(nn, k, X.p, Y.p); out("predictions", Y.p, Y.n); break; }
        case 30: { std::vector<std::string> a; std::vector<char *> p; static const char *I[] = {"xavier", "kaiming", "uniform", "zero", "what"}; for (int i = 0; i < n.L(); i++) a.push_back(I[r.below(5)]); for (auto &x : a) p.push_back(&x[0]);
            L.neuralnet_initialize(nn, p.data()); auto q = params(L, nn); out("initialised", q.data(), q.size()); put(L, nn, n); break; }
        default: {
            int m = 1 + (int) r.below(70); EB P(r, m, true), T(r, m, true), G(r, m, true); for (int i = 0; i < m; i++) { P.p[i] = (float) r.unit(); T.p[i] = (float) r.unit(); G.p[i] = 0; }
            std::string mn = ref::METRICS[r.below(7)]; float x = L.get_metric_func(mn.c_str())(m, P.p, T.p); out(mn.c_str(), &x, 1);
            L.get_loss_func(ref::LOSSES[r.below(5)].c_str())(m, P.p, T.p, G.p); out("loss", G.p, m);
            act_f a = L.get_activation_func(ACTS[r.below(ACTS.size())].c_str()); a(m, P.p); out("activation", P.p, m); L.get_activation_derivative(a)(m, P.p, T.p); out("derivative", T.p, m); }
        }
    }
    void end() { free_opt(true); }
};
