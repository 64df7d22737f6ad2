// Fork server around the interpreter's own main (linked with -Wl,--wrap=main).
// stdin : sequence of cases, little-endian u32 lengths.
//   case  := u32 nfiles {str name, str bytes} u32 nruns {run} u32 dump
//   run   := u32 timeout_ms, u32 nargs {str}, str stdin, u32 nops {u32 op, str a, str b}   (ops before the run: 0=unlink a, 1=mkdir a, 2=write a b, 3=symlink a->b, 4=chmod 000, 5=chmod 444, 6=chmod 555, 7=chmod 777, 8=time of day + a)
// stdout: per case, per run: u32 kind(0 exit,1 signal,2 timeout), u32 code, str out, str err ; then u32 nfiles {str name, str bytes}
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <poll.h>
#include <dirent.h>
#include <pthread.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>

extern "C" int __real_main(int, char **);

// the runs see a fixed time of day (it seeds RAND), so that equal runs are equal
static const time_t T0 = 1700000000; static time_t now_ = T0;
extern "C" time_t time(time_t *p) { if (p) *p = now_; return now_; }
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) {
    if (c == CLOCK_REALTIME) { ts->tv_sec = now_; ts->tv_nsec = 0; return 0; }
    return (int)syscall(SYS_clock_gettime, c, ts);
}

static void rdn(void *p, size_t n) {
    char *c = (char *)p;
    while (n) { ssize_t k = read(0, c, n); if (k <= 0) _exit(0); c += k; n -= (size_t)k; }
}
static uint32_t r32() { uint32_t v; rdn(&v, 4); return v; }
static std::string rstr() { uint32_t n = r32(); std::string s(n, '\0'); if (n) rdn(&s[0], n); return s; }
static std::string outb;
static void w32(uint32_t v) { outb.append((char *)&v, 4); }
static void wstr(const std::string &s) { w32((uint32_t)s.size()); outb += s; }
static void flushOut() { size_t o = 0; while (o < outb.size()) { ssize_t k = write(1, outb.data() + o, outb.size() - o); if (k <= 0) _exit(0); o += (size_t)k; } outb.clear(); }
static std::string slurp(const char *p, size_t cap = 1 << 22) {
    std::string s; int f = open(p, O_RDONLY | O_NONBLOCK); if (f < 0) return s;
    char b[65536]; ssize_t k; while ((k = read(f, b, sizeof b)) > 0) { s.append(b, (size_t)k); if (s.size() > cap) break; } close(f); return s;
}
static void spit(const char *p, const std::string &s) {
    int f = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (f < 0) return;
    size_t o = 0; while (o < s.size()) { ssize_t k = write(f, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; }
    fchmod(f, 0666); close(f);
}
struct A { int c; char **v; };
static void *thr(void *p) { A *a = (A *)p; int r = __real_main(a->c, a->v); exit(r); return nullptr; }
static void rmtree(const std::string &d, bool self) {
    DIR *D = opendir(d.c_str()); if (!D) return; dirent *e;
    while ((e = readdir(D))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string p = d + "/" + e->d_name; struct stat st; if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) rmtree(p, true); else unlink(p.c_str()); }
    closedir(D); if (self) rmdir(d.c_str());
}
extern "C" int __wrap_main(int argc, char **argv) {
    const char *base = getenv("PSV_DIR");
    if (!base) return __real_main(argc, argv);
    // base/w is the working directory of the children (owned by nobody), base/{o,e,i} their stdio
    std::string B = base, W = B + "/w";
    std::string fo = B + "/o", fe = B + "/e", fi = B + "/i";
    size_t stack = getenv("PSV_STACK") ? strtoull(getenv("PSV_STACK"), 0, 10) : (size_t)512 << 20;
    size_t as = getenv("PSV_AS") ? strtoull(getenv("PSV_AS"), 0, 10) : 0;
    mkdir(W.c_str(), 0777); chmod(W.c_str(), 0777);
    signal(SIGPIPE, SIG_IGN);
    while (true) {
        uint32_t nf = r32(); now_ = T0;
        rmtree(W, false);
        for (uint32_t i = 0; i < nf; i++) { std::string n = rstr(), b = rstr(); spit((W + "/" + n).c_str(), b); }
        uint32_t nr = r32();
        for (uint32_t r = 0; r < nr; r++) {
            uint32_t tmo = r32(), na = r32(); std::vector<std::string> args; args.push_back("PseudoEngine2");
            for (uint32_t i = 0; i < na; i++) args.push_back(rstr());
            std::string in = rstr(); uint32_t no = r32();
            for (uint32_t i = 0; i < no; i++) { uint32_t op = r32(); std::string a = rstr(), b = rstr(); std::string p = W + "/" + a;
                if (op == 0) { unlink(p.c_str()); rmdir(p.c_str()); } else if (op == 1) { mkdir(p.c_str(), 0777); chmod(p.c_str(), 0777); }
                else if (op == 2) spit(p.c_str(), b); else if (op == 3) { if (symlink(b.c_str(), p.c_str())) {} } else if (op == 4) chmod(p.c_str(), 0); else if (op == 5) chmod(p.c_str(), 0444); else if (op == 6) chmod(p.c_str(), 0555); else if (op == 7) chmod(p.c_str(), 0777); else if (op == 8) now_ = T0 + atol(a.c_str()); }
            spit(fi.c_str(), in);
            pid_t pid = fork();
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                int a = open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666), c = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
                if (a < 0 || b < 0 || c < 0) _exit(120);
                dup2(a, 0); dup2(b, 1); dup2(c, 2); for (int k = 3; k < 32; k++) close(k);
                if (chdir(W.c_str())) _exit(121);
                umask(0);
                rlimit L{0, 0}; setrlimit(RLIMIT_CORE, &L); L.rlim_cur = L.rlim_max = 64 << 20; setrlimit(RLIMIT_FSIZE, &L);
                if (as) { L.rlim_cur = L.rlim_max = as; setrlimit(RLIMIT_AS, &L); }
                if (geteuid() == 0) { if (setgroups(0, nullptr)) {} if (setgid(65534) || setuid(65534)) _exit(122); }
                std::vector<char *> av; for (auto &s : args) av.push_back(&s[0]); av.push_back(nullptr);
                A arg{(int)args.size(), av.data()};
                pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, stack);
                pthread_t t; if (pthread_create(&t, &at, thr, &arg)) _exit(123);
                pthread_join(t, nullptr); _exit(124);
            }
            int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
            pollfd pf{pfd, POLLIN, 0}; int pr = poll(&pf, 1, (int)tmo); bool to = pr == 0;
            if (to) kill(pid, SIGKILL);
            int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            close(pfd);
            if (to) { w32(2); w32(0); } else if (WIFSIGNALED(st)) { w32(1); w32((uint32_t)WTERMSIG(st)); } else { w32(0); w32((uint32_t)WEXITSTATUS(st)); }
            wstr(slurp(fo.c_str())); wstr(slurp(fe.c_str()));
        }
        uint32_t dump = r32();
        std::vector<std::string> names;
        if (dump) { DIR *D = opendir(W.c_str()); dirent *e; while (D && (e = readdir(D))) if (e->d_name[0] != '.' ) names.push_back(e->d_name); if (D) closedir(D); }
        w32((uint32_t)names.size());
        for (auto &n : names) { wstr(n); struct stat st; std::string p = W + "/" + n; if (!lstat(p.c_str(), &st) && S_ISREG(st.st_mode)) wstr(slurp(p.c_str())); else wstr("\x01<not a file>"); }
        flushOut();
    }
}
