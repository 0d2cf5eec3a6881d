// P24 - the progress bar
#include "lib.hpp"
#include <pty.h>
#include <termios.h>
#include <sys/ioctl.h>
#include <poll.h>
using namespace pbt;

struct Pty {
    int master, slave, saved;
    Pty(int cols) {
        struct termios t; memset(&t, 0, sizeof t); struct winsize w = {24, (unsigned short) cols, 0, 0};
        if (openpty(&master, &slave, nullptr, nullptr, cols ? &w : nullptr)) { perror("openpty"); _exit(3); }
        tcgetattr(slave, &t); cfmakeraw(&t); tcsetattr(slave, TCSANOW, &t);
        fcntl(master, F_SETFL, O_NONBLOCK);
        fflush(stdout); saved = dup(1); dup2(slave, 1);
    }
    void resize(int cols) { struct winsize w = {24, (unsigned short) cols, 0, 0}; ioctl(slave, TIOCSWINSZ, &w); }
    std::string take() {
        fflush(stdout); std::string s; char b[4096]; 
        // everything written is there once a read finds nothing (a pty passes data through a kernel worker: wait until it is drained)
        for (int quiet = 0; quiet < 2;) { ssize_t k = read(master, b, sizeof b); if (k > 0) { s.append(b, k); quiet = 0; if (s.back() == '\r' || s.back() == '\n') { struct pollfd p = {master, POLLIN, 0}; if (poll(&p, 1, 0) <= 0) break; } continue; }
            struct pollfd p = {master, POLLIN, 0}; if (poll(&p, 1, s.empty() ? 3 : 20) <= 0) quiet++; }
        return s;
    }
    ~Pty() { fflush(stdout); dup2(saved, 1); close(saved); close(slave); close(master); }
};
static std::string gen_label(Case &c, int max) {
    int len = c.chance(20) ? 0 : (int) c.small(max); Rng r(c.seed64()); std::string s;
    for (int i = 0; i < len; i++) s += (char) (32 + r.below(95));
    return s;
}
// the label reaches the library through one of several formats
static void report(const Lib &L, int form, int x, int n, const std::string &s, int k, double d, std::string &label) {
    char b[1200];
    switch (form) {
    case 0: L.progress_ascii(x, n, "Train: "); label = "Train: "; break;
    case 1: L.progress_ascii(x, n, "%s", s.c_str()); label = s; break;
    case 2: L.progress_ascii(x, n, "Epoch %d of %d %s", k, k + 7, s.c_str()); snprintf(b, sizeof b, "Epoch %d of %d %s", k, k + 7, s.c_str()); label = b; break;
    case 3: L.progress_ascii(x, n, "%-10s|%5.2f%%", s.c_str(), d); snprintf(b, sizeof b, "%-10s|%5.2f%%", s.c_str(), d); label = b; break;
    case 4: L.progress_ascii(x, n, "%08.3e %c %ld", d, 'a' + k % 26, (long) k * 1000003); snprintf(b, sizeof b, "%08.3e %c %ld", d, 'a' + k % 26, (long) k * 1000003); label = b; break;
    default: L.progress_ascii(x, n, ""); label = ""; break;
    }
}
static void bar(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    int cols = c.chance(5) ? 0 : c.chance(30) ? 1 + (int) c.draw(40) : 1 + (int) c.draw(299), eff = cols ? cols : 80;
    int n = c.chance(10) ? 2147483647 : 1 + (int) c.small(c.flip() ? 100 : 2000000000);
    int reports = 1 + (int) c.draw(11); c.note("%d columns, total %d:", cols, n);
    Pty pty(cols); int lastfill = -1; int prev = -1; bool same = true; std::string lastlabel;
    long x = 0;
    for (int i = 0; i < reports; i++) {
        switch (c.draw(4)) { case 0: x = n; break; case 1: x = (long) c.draw(n); break; case 2: x = std::min<long>(n, x + 1); break; case 3: x = std::max(0, n - 1 - (int) c.draw(std::min(n - 1, 3))); break; default: x = (long) ((double) n * (double) c.draw(100) / 100); }
        if (x > n) x = n;
        if (c.chance(5)) { cols = eff = 1 + (int) c.draw(200); pty.resize(cols); }
        int form = (int) c.draw(5), k = (int) c.draw(1000); double d = (double) c.range(-99999, 99999) / 1000; std::string s = gen_label(c, c.chance(10) ? 300 : 30), label;
        report(L, form, (int) x, n, s, k, d, label);
        std::string o = pty.take();
        int w = eff - 7 - (int) label.size();
        c.note(" %ld", x);
        if (w < 1) { c.label("too narrow"); CHECK(c, o.empty(), "%d columns do not hold the label '%s', but '%s' was printed", eff, label.c_str(), o.c_str()); continue; }
        c.nontrivial();
        c.label(x == n ? "done" : "under way");
        CHECK(c, !o.empty(), "nothing was printed (%d columns, label of %zu)", eff, label.size());
        char end = o.back(); o.pop_back();
        CHECK(c, o.find('\r') == std::string::npos && o.find('\n') == std::string::npos, "more than one line: '%s'", o.c_str());
        CHECK(c, end == (x == n ? '\n' : '\r'), "%ld of %d ends with character %d", x, n, end);
        CHECK(c, (int) o.size() == eff, "the line has %zu characters in %d columns: '%s'", o.size(), eff, o.c_str());
        CHECK(c, o.compare(0, label.size(), label) == 0, "the line '%s' does not start with the label '%s'", o.c_str(), label.c_str());
        std::string b = o.substr(label.size());
        CHECK(c, b[0] == '[' && b[1 + w] == ']' && b[2 + w] == ' ', "no bar of %d characters in '%s'", w, o.c_str());
        int f = 0; while (f < w && b[1 + f] == '#') f++; for (int q = f; q < w; q++) CHECK(c, b[1 + q] == '-', "the bar is broken: '%s'", b.c_str());
        double r = (double) x / n, e = r * w;
        CHECK(c, f >= (int) std::floor(e * (1 - 1e-6)) && f <= (int) std::floor(e * (1 + 1e-6)), "%ld of %d fills %d of %d characters", x, n, f, w);
        char *pe; long pc = strtol(b.c_str() + 3 + w, &pe, 10);
        CHECK(c, b.size() == (size_t) w + 7 && !strcmp(pe, "%"), "no percentage at the end of '%s'", b.c_str());
        CHECK(c, pc >= (long) std::floor(100 * r * (1 - 1e-6)) && pc <= (long) std::floor(100 * r * (1 + 1e-6)), "%ld of %d is printed as %ld percent", x, n, pc);
        CHECK(c, x != n || (f == w && pc == 100), "done, but %d of %d and %ld percent", f, w, pc);
    }
}
static void notty(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    int saved = dup(1), pfd[2], kind = (int) c.draw(2); fflush(stdout);
    if (kind == 0) { pfd[0] = pfd[1] = memfd_create("o", 0); }
    else if (kind == 1) { if (pipe(pfd)) _exit(3); fcntl(pfd[0], F_SETFL, O_NONBLOCK); }
    else { pfd[0] = pfd[1] = memfd_create("o", 0); }
    if (kind == 2) close(1); else dup2(pfd[1], 1);
    for (int i = 0; i < 5; i++) { std::string l; int n = 1 + (int) c.small(1000); report(L, (int) c.draw(5), (int) c.draw(n), n, gen_label(c, 50), 3, 1.5, l); }
    fflush(stdout); char b[16];
    ssize_t k = kind == 1 ? read(pfd[0], b, sizeof b) : pread(pfd[0], b, sizeof b, 0);
    if (kind != 2) dup2(saved, 1); else dup2(saved, 1);
    c.nontrivial(); c.label(kind == 0 ? "file" : kind == 1 ? "pipe" : "closed");
    CHECK(c, k <= 0, "the progress bar is printed although standard output is no terminal");
}
int main(int argc, char **argv) {
    libs();
    return main_("P24", {{"bar", bar, 20000, 400000}, {"notty", notty, 10000, 100000}},
                 "random progress sequences, labels, formats and widths on a pseudo-terminal, the bytes it receives are parsed; standard output as file, pipe, closed; non-trivial: a bar is printed / always", argc, argv);
}
