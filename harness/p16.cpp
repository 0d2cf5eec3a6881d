// P16 - a failed or interrupted save never destroys the previous model
#include "lib.hpp"
#include <map>
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <grp.h>
using namespace pbt;

struct Comm { volatile int in_save, returned, again_ok, again_started; };
static Comm *comm() { static Comm *p = (Comm *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p; }

// ---- the tracer: counts the file system calls of a save, and disturbs one (or all from one on) ----
static bool fs_call(long nr, long a0) {
    switch (nr) {
    case SYS_write: case SYS_pwrite64: case SYS_writev: return a0 != 1 && a0 != 2;
    case SYS_open: case SYS_openat: case SYS_creat: case SYS_close: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat: case SYS_link: case SYS_linkat: case SYS_symlink:
    case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate: case SYS_truncate: case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: case SYS_chown: case SYS_fchown: case SYS_lseek: case SYS_read: case SYS_pread64:
    case SYS_stat: case SYS_lstat: case SYS_fstat: case SYS_newfstatat: case SYS_statx: case SYS_access: case SYS_fcntl: case SYS_ioctl: case SYS_dup: case SYS_dup2: case SYS_fallocate: case SYS_copy_file_range: case SYS_sendfile: case SYS_mkdir: case SYS_getdents64: return true;
    }
    return false;
}
static const char *name_of(long nr) {
    static const std::map<long, const char *> N = {{SYS_write, "write"}, {SYS_openat, "openat"}, {SYS_open, "open"}, {SYS_close, "close"}, {SYS_rename, "rename"}, {SYS_unlink, "unlink"}, {SYS_ftruncate, "ftruncate"}, {SYS_chmod, "chmod"}, {SYS_fchmod, "fchmod"}, {SYS_lseek, "lseek"}, {SYS_read, "read"}, {SYS_stat, "stat"}, {SYS_newfstatat, "newfstatat"}, {SYS_fstat, "fstat"}, {SYS_ioctl, "ioctl"}, {SYS_fcntl, "fcntl"}, {SYS_dup, "dup"}, {SYS_fsync, "fsync"}, {SYS_access, "access"}, {SYS_renameat, "renameat"}};
    auto i = N.find(nr); return i == N.end() ? "a call" : i->second;
}
enum { NONE, FAIL, FAIL_ON, KILL_BEFORE, KILL_AFTER, SHORT, NMODES };
static const char *MODE[] = {"undisturbed", "fails", "fails, as do all later ones", "death before", "death after", "short write"};
struct Fault { int mode = NONE; long k = -1; int err = EIO; bool writes_only = false; };
struct Run { long calls = 0, writes = 0; bool hit = false; long what = 0; bool died = false, returned = false, again = false, again_started = false, unable = false; int status = 0; std::string err; };

struct Subject { const Lib &L; const Net &n; std::string name; int xfsz = 0; long fsize = -1; int nofile = -1; bool nobody = false; bool again = true; };
static void __attribute__((noinline)) tracee(const Subject &s, bool traced) {
    comm()->in_save = comm()->returned = comm()->again_ok = comm()->again_started = 0;
    nn_t *nn = make(s.L, s.n);
    struct rlimit old, r;
    if (s.nobody) { if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) _exit(77); }
    if (s.fsize >= 0) { signal(SIGXFSZ, s.xfsz ? SIG_DFL : SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); r = old; r.rlim_cur = s.fsize; setrlimit(RLIMIT_FSIZE, &r); }
    if (s.nofile >= 0) { getrlimit(RLIMIT_NOFILE, &old); r = old; r.rlim_cur = s.nofile; setrlimit(RLIMIT_NOFILE, &r); }
    if (traced) { ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); }
    comm()->in_save = 1;
    s.L.neuralnet_save(nn, "%s", s.name.c_str());
    comm()->in_save = 0; comm()->returned = 1;
    fflush(stderr); fflush(stdout);
    if (s.fsize >= 0) setrlimit(RLIMIT_FSIZE, &old);
    if (s.nofile >= 0) setrlimit(RLIMIT_NOFILE, &old);
    // the program goes on: the network is as it was and can be saved elsewhere
    if (!unchanged(s.L, nn, s.n)) _exit(78);
    if (s.again) {
        comm()->again_started = 1; s.L.neuralnet_save(nn, "elsewhere.npz");
        nn_t *m = s.L.neuralnet_load("elsewhere.npz"); if (m && unchanged(s.L, m, s.n)) comm()->again_ok = 1;
    }
    _exit(0);
}
static Run save(Case &c, const Subject &s, const Fault &f, bool traced = true) {
    Run r; int mem[2]; if (pipe(mem)) c.discard(); comm();
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { dup2(mem[1], 2); close(mem[0]); close(mem[1]); tracee(s, traced); }
    close(mem[1]);
    int st = 0; bool entry = true; int pending = 0; long idx = 0;
    if (!traced) { while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    else {
        if (waitpid(p, &st, 0) < 0 || !WIFSTOPPED(st)) { r.unable = true; }
        else {
            ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
            int sig = 0;
            for (;;) {
                if (ptrace(comm()->returned ? PTRACE_CONT : PTRACE_SYSCALL, p, 0, sig) < 0) break;
                sig = 0;
                if (waitpid(p, &st, 0) < 0) break;
                if (WIFEXITED(st) || WIFSIGNALED(st)) break;
                if (!WIFSTOPPED(st)) continue;
                if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); continue; }
                struct user_regs_struct u; ptrace(PTRACE_GETREGS, p, 0, &u);
                if (entry) {
                    entry = false; pending = 0;
                    if (!comm()->in_save || !fs_call(u.orig_rax, u.rdi)) continue;
                    bool w = u.orig_rax == SYS_write || u.orig_rax == SYS_pwrite64 || u.orig_rax == SYS_writev;
                    r.calls++; if (w) r.writes++;
                    if (f.mode == NONE || (f.writes_only && !w)) continue;
                    long i = idx++;
                    if (!(i == f.k || (f.mode == FAIL_ON && i > f.k))) continue;
                    r.hit = true; if (i == f.k) r.what = u.orig_rax;
                    if (f.mode == FAIL || f.mode == FAIL_ON) { u.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &u); pending = 1; }
                    else if (f.mode == KILL_BEFORE) { kill(p, SIGKILL); }
                    else if (f.mode == KILL_AFTER) pending = 2;
                    else if (f.mode == SHORT && u.rdx > 1) { u.rdx = 1 + f.err % (u.rdx - 1); ptrace(PTRACE_SETREGS, p, 0, &u); }
                } else {
                    entry = true;
                    if (pending == 1) { u.rax = -(long) f.err; ptrace(PTRACE_SETREGS, p, 0, &u); }
                    if (pending == 2) kill(p, SIGKILL);
                    pending = 0;
                }
            }
        }
    }
    r.status = st; r.died = !WIFEXITED(st); r.returned = comm()->returned; r.again = comm()->again_ok; r.again_started = comm()->again_started;
    char b[4096]; ssize_t k; while ((k = read(mem[0], b, sizeof b)) > 0) r.err.append(b, k); close(mem[0]);
    return r;
}
// what the name holds: 'o' the old model, 'n' the new one, '-' nothing, '?' something else
static char holds(const Lib &L, const std::string &name, bool had, const std::string &old, const Net *oldnet, const Net &n) {
    std::string t; struct stat sb;
    if (lstat(name.c_str(), &sb)) return '-';
    if (!read_file(name, t)) return '?';
    Capture e(2);
    nn_t *m = L.neuralnet_load(name.c_str()); char r = '?';
    if (m) { if (unchanged(L, m, n)) r = 'n'; L.neuralnet_free(m); }
    if (had && t == old) { if (r == 'n') return 'n'; r = 'o'; if (oldnet) { m = L.neuralnet_load(name.c_str()); if (!m || !unchanged(L, m, *oldnet)) r = '?'; if (m) L.neuralnet_free(m); } }
    return r;
}
static void judge(Case &c, const Subject &s, const Run &r, const std::string &what, bool may_die, bool had, const std::string &old, const Net *oldnet) {
    CHECK(c, WIFEXITED(r.status) || may_die, "%s: the process was ended by signal %d", what.c_str(), WTERMSIG(r.status));
    if (WIFEXITED(r.status)) {
        CHECK(c, WEXITSTATUS(r.status) == 0, "%s: %s (exit status %d); %s", what.c_str(), WEXITSTATUS(r.status) == 78 ? "the network changed" : "the process ended", WEXITSTATUS(r.status), r.err.c_str());
        CHECK(c, r.returned, "%s: the call did not return", what.c_str());
        if (s.again) CHECK(c, r.again, "%s: afterwards the network cannot be saved elsewhere", what.c_str());
    }
    char h = holds(s.L, s.name, had, old, oldnet, s.n);
    if (had) CHECK(c, h == 'o' || h == 'n', "%s: the name now holds %s, neither the previous nor the new model", what.c_str(), h == '-' ? "nothing" : "something incomplete");
    else CHECK(c, h == '-' || h == 'n', "%s: the name now holds something incomplete; there was nothing before", what.c_str());
    if (r.returned && h != 'n') CHECK(c, !r.err.empty(), "%s: the save failed without a warning", what.c_str());
    c.label("%s, name holds %s", r.died ? "died" : r.err.empty() ? "silent" : "warned", h == 'o' ? "the old model" : h == 'n' ? "the new model" : "nothing");
}
static Net gnet(Case &c, int maxl, int maxs) { NetOpt o; o.maxl = maxl; o.maxsize = maxs; o.wscale = 0.5; return gen_net(c, o); }
struct World { Net n, o; bool had; std::string old; int kind; };
static World prepare(Case &c, const Lib &L, const std::string &name, int maxl, int maxs) {
    World w; w.n = gnet(c, maxl, maxs); w.o = gnet(c, maxl, maxs); w.kind = (int) c.draw(2); w.had = w.kind != 1;      // 0: there is a model, 1: there is nothing, 2: there is a model of the same structure
    if (w.kind == 2) { w.o = w.n; for (auto &x : w.o.w) for (float &v : x) v += 1; }
    if (w.had) { nn_t *m = make(L, w.o); L.neuralnet_save(m, "%s", name.c_str()); L.neuralnet_free(m); CHECK(c, read_file(name, w.old), "the first model cannot be saved"); }
    return w;
}
static void restore(const World &w, const std::string &name) { if (w.had) write_file(name, w.old); else unlink(name.c_str()); unlink("elsewhere.npz"); }
static void clean(const std::string &name) {   // temporary files of killed saves
    DIR *d = opendir("."); while (struct dirent *e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != ".." && s != name) unlink(s.c_str()); } closedir(d);
}
// every file system call of a save in turn
static void calls(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; Scratch sc; std::string name = "model.npz"; bool big = c.chance(15);
    World w = prepare(c, L, name, big ? 3 : 2, big ? 60 : 7);
    Subject s{L, w.n, name}; Fault f; f.mode = 1 + (int) c.draw(NMODES - 2); f.err = c.pick(std::vector<int>{EIO, ENOSPC, EACCES, EMFILE, EROFS, EDQUOT, EPERM, ENOENT}); if (f.mode == SHORT) { f.writes_only = true; f.err = (int) c.draw(3000); } else f.writes_only = c.chance(20);
    c.note("%s %s over %s, %s (%s)%s:", L.name.c_str(), w.n.str().c_str(), w.had ? w.o.str().c_str() : "nothing", MODE[f.mode], strerror(f.err), f.writes_only ? ", writes only" : ""); c.nontrivial(); c.label("%s", MODE[f.mode]);
    Run r0 = save(c, s, Fault());
    if (r0.unable || r0.calls == 0) { c.label("no tracing"); c.fail("the calls of a save cannot be traced"); }
    judge(c, s, r0, "undisturbed save", false, w.had, w.old, &w.o);
    CHECK(c, holds(L, name, w.had, w.old, nullptr, w.n) == 'n', "an undisturbed save does not store the model: %s", r0.err.c_str());
    long total = f.writes_only ? r0.writes : r0.calls, points = 0;
    for (long k = 0; k < total; k++) {
        restore(w, name); f.k = k; Run r = save(c, s, f);
        if (!r.hit) continue;
        points++;
        char what[200]; snprintf(what, sizeof what, "%s %ld of %ld of a save (%s), %s", f.writes_only ? "write" : "file system call", k + 1, total, name_of(r.what), MODE[f.mode]); if (f.mode == FAIL || f.mode == FAIL_ON) snprintf(what + strlen(what), sizeof what - strlen(what), " (%s)", strerror(f.err));
        judge(c, s, r, what, f.mode == KILL_BEFORE || f.mode == KILL_AFTER, w.had, w.old, &w.o);
        if (f.mode == SHORT) CHECK(c, holds(L, name, w.had, w.old, nullptr, w.n) == 'n', "%s: a write that is only done in part makes the save fail: %s", what, r.err.c_str());
        clean(name);
    }
    c.note(" %ld points", points);
}
// the disk is full after every number of bytes
static void full(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; Scratch sc; std::string name = "model.npz"; bool big = c.chance(30);
    World w = prepare(c, L, name, big ? 3 : 1, big ? 60 : 5);
    Subject s{L, w.n, name}; s.xfsz = (int) c.draw(1);
    restore(w, name); Run r0 = save(c, s, Fault(), false); judge(c, s, r0, "undisturbed save", false, w.had, w.old, &w.o);
    std::string t; CHECK(c, read_file(name, t) && !t.empty(), "an undisturbed save does not store the model");
    long n = (long) t.size(), step = 1 + n / 150, off = (long) c.draw(step - 1);
    c.note("%s %s (%ld bytes) over %s, %s, limits %ld + i * %ld", L.name.c_str(), w.n.str().c_str(), n, w.had ? "a model" : "nothing", s.xfsz ? "killed at the limit" : "write error at the limit", off, step); c.nontrivial(); c.label(s.xfsz ? "killed at the limit" : "write error at the limit");
    for (long b = off; b <= n + step; b += (b < 3 || b > n - 4) ? 1 : step) {
        restore(w, name); s.fsize = b; Run r = save(c, s, Fault(), false);
        char what[100]; snprintf(what, sizeof what, "%s after %ld of %ld bytes", s.xfsz ? "death" : "full disk", b, n);
        judge(c, s, r, what, s.xfsz, w.had, w.old, &w.o);
        if (b > n + 1000) CHECK(c, holds(L, name, w.had, w.old, nullptr, w.n) == 'n', "the save fails although there is space");
        clean(name);
    }
}
// targets that cannot be opened, created or replaced
static void targets(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)]; Scratch sc; chmod(sc.dir.c_str(), 0777);
    int kind = (int) c.draw(12); static const char *K[] = {"directory does not exist", "directory may not be written", "read-only file in a writable directory", "name of a directory", "no file descriptors", "file as directory", "empty name", "trailing slash", "symbolic link", "dangling link", "directory may not be searched", "name of another user's file in a sticky directory", "name of a directory which is not empty"};
    std::string name = "model.npz"; bool had = true;
    mkdir("d", 0777); chmod("d", 0777);
    if (kind == 0) { name = "nowhere/model.npz"; } else if (kind == 1 || kind == 10 || kind == 11) name = "d/model.npz"; else if (kind == 5) { write_file("f", "x"); name = "f/model.npz"; } else if (kind == 6) name = ""; else if (kind == 7) name = "d/";
    else if (kind == 3) { name = "d"; } else if (kind == 12) { name = "d"; write_file("d/x", "x"); }
    bool possible = kind == 1 || kind == 2 || kind == 4 || kind == 8 || kind == 10 || kind == 11;
    World w; w.n = gnet(c, 2, 7); w.o = gnet(c, 2, 7); had = w.had = possible && !c.chance(20);
    std::string real = name;
    if (kind == 8) { real = "real.npz"; if (symlink("real.npz", "model.npz")) {} }
    if (kind == 9) { if (symlink("nowhere/x.npz", "model.npz")) {} }
    if (w.had) { nn_t *m = make(L, w.o); L.neuralnet_save(m, "%s", real.c_str()); L.neuralnet_free(m); CHECK(c, read_file(real, w.old), "the first model cannot be saved"); chmod(real.c_str(), 0644); }
    Subject s{L, w.n, name}; s.nobody = kind != 4;
    if (kind == 1) chmod("d", 0555);
    if (kind == 2) { if (had) { chmod(name.c_str(), 0444); if (chown(name.c_str(), 65534, 65534)) {} } }
    if (kind == 10) chmod("d", 0666);
    if (kind == 11) chmod("d", 01777);
    if (kind == 4) s.nofile = 3 + (int) c.draw(5);
    c.note("%s %s: %s%s", L.name.c_str(), w.n.str().c_str(), K[kind], had ? ", over a model" : ""); c.nontrivial(); c.label("%s", K[kind]);
    Run r = save(c, s, Fault(), false);
    if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 77) c.discard();
    chmod("d", 0777);
    CHECK(c, WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0 && r.returned, "%s: the process ended (%d); %s", K[kind], r.status, r.err.c_str());
    CHECK(c, r.again, "%s: afterwards the network cannot be saved elsewhere", K[kind]);
    if (possible) judge(c, s, r, K[kind], false, had, w.old, &w.o);
    else if (kind != 9) { struct stat sb; CHECK(c, !r.err.empty(), "%s: no warning", K[kind]); if (kind == 3 || kind == 12) CHECK(c, !lstat("d", &sb) && S_ISDIR(sb.st_mode), "the directory is gone"); }
    std::string x; if (kind == 12) CHECK(c, read_file("d/x", x) && x == "x", "a file in the directory is gone");
    if (kind == 5) CHECK(c, read_file("f", x) && x == "x", "the file used as directory changed");
}
int main(int argc, char **argv) {
    libs();
    return main_("P16", {{"calls", calls, 900, 20000, 120}, {"full", full, 900, 20000, 120}, {"targets", targets, 3000, 40000}},
                 "every file system call of a save in turn fails, is the last one before the process dies, or is done only in part (calls); the disk is full or the process is killed after each number of bytes (full); targets that cannot be opened, created or replaced (targets); all are non-trivial", argc, argv);
}
