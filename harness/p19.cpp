// P19 - the training log
#include "optmodel.hpp"
#include <sys/stat.h>
using namespace pbt;

struct Ep { long no; int valid; std::vector<float> r; long t0, t1; };
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> w; size_t i = 0; while (i < s.size()) { size_t j = s.find_first_of(" \t", i); if (j == std::string::npos) j = s.size(); if (j > i) w.push_back(s.substr(i, j - i)); i = j + 1; } return w; }
// is the line what has to be logged for the epoch?
static void check_line(Case &c, const std::string &line, const Ep &e, const std::vector<std::string> &names, const char *where) {
    auto w = words(line);
    size_t nm = names.size(), nv = nm * (1 + e.valid);
    CHECK(c, w.size() == 3 + 2 * nv, "%s: the line '%s' has %zu words instead of %zu (epoch %ld, %zu metrics, validation %d)", where, line.substr(0, 300).c_str(), w.size(), 3 + 2 * nv, e.no, nm, e.valid);
    int h, m, s; char x;
    CHECK(c, sscanf(w[0].c_str(), "[%2d:%2d:%2d%c", &h, &m, &s, &x) == 4 && x == ']' && w[0].size() == 10, "%s: '%s' is not a time of day", where, w[0].c_str());
    bool ok = false; for (long t = e.t0; t <= e.t1; t++) { time_t tt = t; struct tm q; localtime_r(&tt, &q); if (q.tm_hour == h && q.tm_min == m && q.tm_sec == s) ok = true; }
    CHECK(c, ok, "%s: '%s' was not the time", where, w[0].c_str());
    CHECK(c, w[1] == "Epoch" && w[2] == std::to_string(e.no), "%s: epoch %s is logged instead of %ld", where, w[2].c_str(), e.no);
    for (size_t i = 0; i < nv; i++) {
        std::string name = (i >= nm ? "val_" : "") + names[i % nm] + ":";
        CHECK(c, w[3 + 2 * i] == name, "%s: epoch %ld: value %zu is called '%s' instead of '%s'", where, e.no, i, w[3 + 2 * i].c_str(), name.c_str());
        char *end; double v = strtod(w[4 + 2 * i].c_str(), &end), want = e.r[i];
        CHECK(c, !*end, "%s: '%s' is not a number", where, w[4 + 2 * i].c_str());
        CHECK(c, std::isnan(want) ? std::isnan(v) : std::isinf(want) ? v == want : std::fabs(v - want) <= 6e-6 * std::fabs(want) + 1e-50 && std::signbit(v) == std::signbit(want), "%s: epoch %ld: %s %s is logged for %.9g", where, e.no, name.c_str(), w[4 + 2 * i].c_str(), want);
    }
}
static std::string gen_garbage(Case &c) {
    Rng r(c.seed64()); int style = (int) c.draw(4); size_t len = style == 0 ? 0 : c.small(900); std::string s;
    for (size_t i = 0; i < len; i++) { char ch = style == 1 ? (char) (32 + r.below(95)) : style == 2 ? (char) r.below(256) : (char) ("[]:0123456789 epoch%sd"[r.below(22)]); if (ch == '\n') ch = ' '; s += ch; }
    for (size_t p; (p = s.find("Epoch")) != std::string::npos;) s[p] = 'e';
    return s;
}
static std::string logline(Rng &r, long no, int values) {
    char b[128]; snprintf(b, sizeof b, "[%02d:%02d:%02d] Epoch %3ld ", (int) r.below(24), (int) r.below(60), (int) r.below(60), no); std::string s = b;
    for (int i = 0; i < values; i++) { snprintf(b, sizeof b, "%s%s: %5.5e ", r.below(2) ? "val_" : "", ref::METRICS[r.below(7)].c_str(), r.normal()); s += b; }
    return s;
}
static void log__(Case &c, bool lng) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    Scratch scratch;
    static const char *TZS[] = {"UTC", "XXX-5:30", "YYY11"}; setenv("TZ", TZS[c.draw(2)], 1); tzset();
    Net n; n.sizes = {1, 1}; n.acts = {"linear"}; n.w = {{1}}; n.b = {{0}};
    nn_t *nn = make(L, n); L.neuralnet_set_loss(nn, "mse");
    int nm = 1 + (int) (c.chance(15) ? c.draw(60) : c.chance(1) ? 300 : c.draw(7)), vmode = (int) c.draw(2);
    std::vector<metric_f> mf; std::vector<std::string> names;
    for (int i = 0; i < nm; i++) { names.push_back(ref::METRICS[c.draw(6)]); mf.push_back(L.get_metric_func(names.back().c_str())); } mf.push_back(nullptr);
    opt_t *opt = L.sh_opt_new((int) c.draw(3), nn, 4, 0, 0, mf.data(), nullptr, 0, nullptr);
    std::string file = c.flip() ? "log.txt" : "a %s%n log%d";
    std::string content;                                    // what the file has to hold
    bool exists = false; long last = -1; Rng r(c.seed64());
    // a file from before
    if (c.chance(60)) {
        exists = true; int k = (int) (lng ? gen_large(c, 1, 60000) : c.small(c.chance(3) ? 3000 : 12));
        for (int i = 0; i < k; i++) {
            switch (lng ? r.below(4) : c.draw(3)) {
            case 0: case 1: last = (lng ? r.below(1000) > 0 : c.chance(50)) ? last + 1 : (long) c.small(2000000000); content += logline(r, last, (int) (lng ? r.below(5) : c.small(c.chance(10) ? 60 : 8))); break;
            case 2: content += lng && r.below(50) ? "" : gen_garbage(c); break;
            default: content += ""; break;
            }
            content += (lng ? r.below(30) == 0 : c.chance(3)) ? "\r\n" : "\n";
        }
        if (c.chance(15) && !content.empty()) content.pop_back();
        if (c.chance(15)) content += gen_garbage(c);
        write_file(file, content);
    }
    int segs = 1 + (int) c.draw(2);
    c.note("%d metrics, validation mode %d, file %s of %zu bytes, last epoch %ld:", nm, vmode, exists ? "exists" : "new", content.size(), last);
    Capture out(1);
    long total = 0;
    for (int s = 0; s < segs; s++) {                        // the process "restarts": a new logger on the same file
        int mask = (int) c.draw(7);
        long start = mask & 1 ? (c.chance(30) ? 0 : (long) c.small(100000)) : 0;
        int quiet = mask & 4 ? c.flip() : 0; bool tofile = mask & 2;
        cb_t *cb = L.sh_log_new(mask, (int) start, strdup(file.c_str()), quiet);
        CHECK(c, cb, "no logger");
        long no = start == 0 && tofile && exists && last >= 0 ? last + 1 : start;
        int epochs = (int) (lng ? gen_large(c, 1, content.size() > 300000 ? 30 : 3000) : c.small(c.chance(1) ? 400 : 8)); total += epochs;
        c.note(" [start %ld%s%s, %d epochs]", start, tofile ? "" : " no file", quiet ? " quiet" : "", epochs);
        if (start == 0 && tofile && last >= 0) c.label("resumes");
        History h(c);
        for (int e = 0; e < epochs; e++) {
            Ep ep; ep.no = no++; ep.valid = vmode == 2 ? c.flip() : vmode;
            Buf res(nm * (1 + ep.valid), 0, true); for (size_t i = 0; i < res.n; i++) { res[i] = r.below(20) ? h.next(i) : r.below(2) ? NAN : INFINITY; ep.r.push_back(res[i]); } res.readonly();
            if (tofile && exists && (lng ? !r.below(300) : c.chance(8))) { std::string x = "appended by somebody else\n"; if (!content.empty() && content.back() != '\n') x = "\n" + x; content += x; FILE *f = fopen(file.c_str(), "a"); fputs(x.c_str(), f); fclose(f); c.label("somebody else appends"); }
            if (tofile && exists && (lng ? !r.below(500) : c.chance(3))) { unlink(file.c_str()); content.clear(); exists = false; c.label("file removed"); }
            out.reset();
            ep.t0 = time(nullptr);
            L.sh_cb_run(cb, opt, res.p, ep.valid);
            ep.t1 = time(nullptr);
            std::string o = out.text();
            if (quiet) CHECK(c, o.empty(), "standard output is disabled but got '%s'", o.substr(0, 200).c_str());
            else {
                CHECK(c, !o.empty() && o.find('\n') == o.size() - 1, "epoch %ld: standard output got not exactly one line: '%s'", ep.no, o.substr(0, 200).c_str());
                check_line(c, o.substr(0, o.size() - 1), ep, names, "standard output");
            }
            std::string now; bool there = read_file(file, now);
            if (tofile) {
                CHECK(c, there, "no log file");
                CHECK(c, now.size() > content.size() && now.compare(0, content.size(), content) == 0, "epoch %ld: what the log file held before was changed", ep.no);
                std::string add = now.substr(content.size());
                CHECK(c, add.find('\n') == add.size() - 1, "epoch %ld: not exactly one line was appended: '%s'", ep.no, add.substr(0, 200).c_str());
                check_line(c, add.substr(0, add.size() - 1), ep, names, "log file");
                content = now; exists = true; last = ep.no;
            } else CHECK(c, there == exists && (!there || now == content), "the log file was written without being asked to");
        }
        L.sh_cb_free(cb);
    }
    if (total > 1) c.nontrivial(); if (nm > 10) c.label("many metrics"); if (vmode) c.label("validation"); if (total > 1000) c.label("more than 1000 epochs"); if (content.size() > 100000) c.label("more than 100 kB"); if (content.size() > 1000000) c.label("more than 1 MB");
    L.sh_opt_free(opt); L.neuralnet_free(nn);
}
static void log_(Case &c) { log__(c, false); }
static void longlog(Case &c) { log__(c, true); }
int main(int argc, char **argv) {
    libs();
    return main_("P19", {{"log", log_, 60000, 1000000}, {"long", longlog, 300, 8000, 60}},
                 "random previous log files (log lines, garbage, long lines, missing last newline), random loggers one after the other on the same file, random results; each epoch's change of file and standard output is parsed and compared; non-trivial: more than one epoch logged", argc, argv);
}
