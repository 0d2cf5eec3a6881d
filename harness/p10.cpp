// P10 - objects in one process are independent of each other
#include "subject.hpp"
#include "alignheap.hpp"
// the clock stands still and the random numbers are constant, so that what an object does is a function of its own history
extern "C" time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
extern "C" int rand(void) { return RAND_MAX / 100 * 65; }
static std::string alone(Subject &s, int steps, const std::string &dir) {
    int p[2]; if (pipe(p)) _exit(3);
    fflush(stdout); fflush(stderr);
    pid_t k = fork();
    if (k == 0) {
        close(p[0]); if (mkdir(dir.c_str(), 0777) || chdir(dir.c_str())) _exit(9);
        for (int i = 0; i < steps; i++) s.step();
        s.end();
        size_t o = 0; while (o < s.trace.size()) { ssize_t w = write(p[1], s.trace.data() + o, s.trace.size() - o); if (w <= 0) break; o += w; }
        _exit(0);
    }
    close(p[1]); std::string t; char b[65536]; ssize_t g; while ((g = read(p[0], b, sizeof b)) > 0) t.append(b, g);
    close(p[0]); int st; waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) t += "died";
    return t;
}
static void company(Case &c, bool crowd) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    L.sh_threads(1);
    Scratch scratch;
    int k = crowd ? (int) gen_large(c, 8, 150) : 2 + (int) c.draw(2), steps = 5 + (int) c.draw(crowd ? 20 : 40);
    std::vector<Subject> ss; for (int i = 0; i < k; i++) ss.emplace_back(c, L, i, crowd ? 3 : 9);
    c.note("%s %d subjects, %d steps each:", L.name.c_str(), k, steps); if (!crowd) for (auto &s : ss) c.note(" %s", s.n.str().c_str());
    std::vector<std::string> want;
    for (int i = 0; i < k; i++) {
        std::string a = alone(ss[i], steps, "a" + std::to_string(i)), b = alone(ss[i], steps, "b" + std::to_string(i));
        if (a != b) { c.label("not a function of its history"); c.discard(); }
        want.push_back(a);
    }
    mkdir("all", 0777); if (chdir("all")) _exit(3);
    std::vector<int> left(k, steps), live; for (int i = 0; i < k; i++) live.push_back(i);
    int burst = 1 + (int) c.draw(4);
    while (!live.empty()) {
        size_t j = c.draw(live.size() - 1); int i = live[j];
        for (int b = 0; b < burst && left[i] > 0; b++, left[i]--) ss[i].step();
        if (left[i] == 0) { ss[i].end(); live.erase(live.begin() + j); }
    }
    c.nontrivial(); c.label("variant %s", L.name.c_str());
    for (int i = 0; i < k; i++) if (ss[i].trace != want[i]) {
        size_t p = 0; while (p < want[i].size() && p < ss[i].trace.size() && want[i][p] == ss[i].trace[p]) p++;
        size_t a = p ? want[i].rfind('\n', p - 1) : std::string::npos; a = a == std::string::npos ? 0 : a + 1;
        c.fail("%s: subject %d (%s) behaves differently in company: alone '%s', in company '%s' (character %zu of the line)", L.name.c_str(), i, ss[i].n.str().c_str(), want[i].substr(a, std::min<size_t>(160, want[i].find('\n', a) - a)).c_str(), ss[i].trace.substr(a, std::min<size_t>(160, ss[i].trace.find('\n', a) - a)).c_str(), p - a);
    }
}
static void twins(Case &c) { company(c, false); }
static void crowd(Case &c) { company(c, true); }
int main(int argc, char **argv) {
    libs();
    return main_("P10", {{"twins", twins, 16000, 300000}, {"crowd", crowd, 160, 4000, 120}},
                 "two to four (crowd: up to 150) subjects (network, optimizer, callbacks; random histories of training, callbacks, prediction, saving, freeing and renewing) run each alone in a process of its own and together, interleaved at random, in one process; the traces of everything observable have to be identical; all are non-trivial", argc, argv);
}
