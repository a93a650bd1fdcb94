// C21: DICE_SANDBOX.  Every case runs in a process P of its own, forked by the harness: P sets up signal handlers, masks, timers, buffered
// output and other children, runs sandboxes that end in commanded ways, and compares the reports and its own state before and after.
#include "vt.hpp"
#include <dice/template-library/sandbox.hpp>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

namespace dtl = dice::template_library;
using Res = dtl::SubProcessResult;

struct Shared {
    std::atomic<int> nfail;
    char key[8][40];
    char msg[8][300];
    std::atomic<uint64_t> runs, exits, signals, exceptions, nested, interrupts, foreign_children, forks_failed, handlers_in_child, stopped, child_token_optional;
    std::atomic<int> child_pid;
    std::atomic<int> reached;   // set by the child when it runs its function
    std::atomic<int> finished;  // set by P at its end
};
static Shared *sh;
[[gnu::format(printf, 2, 3)]] static void pfail(char const *key, char const *f, ...) {
    int i = sh->nfail.fetch_add(1);
    if (i >= 8) return;
    snprintf(sh->key[i], sizeof sh->key[i], "%s", key);
    va_list ap;
    va_start(ap, f);
    vsnprintf(sh->msg[i], sizeof sh->msg[i], f, ap);
    va_end(ap);
}

// ---------------------------------------------------------------- ways to end
static std::vector<int> const &fatal_signals() { // default action: terminate (with or without core)
    static std::vector<int> v = [] {
        std::vector<int> s{SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGKILL, SIGUSR1, SIGSEGV, SIGUSR2, SIGPIPE, SIGALRM, SIGTERM, SIGSTKFLT, SIGXCPU, SIGXFSZ, SIGVTALRM, SIGPROF, SIGIO, SIGPWR, SIGSYS};
        for (int i = SIGRTMIN; i <= SIGRTMAX; ++i) s.push_back(i);
        return s;
    }();
    return v;
}
enum Kind { RET, VOID, RAISE, KILL, ABORT, THROW_STD, THROW_INT, THROW_NESTED, TERMINATE, TRAP, NULLWRITE, EXIT_NOW, STOP_CONT, NKINDS };
struct End {
    Kind kind;
    int arg;
};
[[gnu::no_sanitize("address", "undefined")]] static void null_write() {
    int volatile *volatile p = nullptr;
    *p = 1;
}
static std::string describe(End e) {
    static char const *const n[] = {"return", "void return", "raise", "kill", "abort", "throw std::runtime_error", "throw int", "throw from a destructor during unwinding", "std::terminate", "__builtin_trap", "null write", "_exit", "stop, continue, return"};
    return std::string(n[e.kind]) + " " + std::to_string(e.arg);
}
static std::vector<int> expected(End e) { // allowed results
    switch (e.kind) {
        case RET: case EXIT_NOW: case STOP_CONT: return {static_cast<int>((e.arg & 255) == 0 ? Res::ExitSuccess : Res::ExitFailure)};
        case VOID: return {static_cast<int>(Res::ExitSuccess)};
        case RAISE: case KILL: return {e.arg};
        case ABORT: case THROW_STD: case THROW_INT: case THROW_NESTED: case TERMINATE: return {SIGABRT};
        case TRAP: return {SIGILL, SIGTRAP};
        case NULLWRITE: return {SIGSEGV, SIGBUS};
        default: return {};
    }
}
struct Bomb { ~Bomb() noexcept(false) { throw 1; } };
static int act(End e) {
    switch (e.kind) {
        case RET: return e.arg;
        case RAISE: raise(e.arg); break;
        case KILL: kill(getpid(), e.arg); usleep(1000); break;
        case ABORT: abort();
        case THROW_STD: throw std::runtime_error("from the sandbox");
        case THROW_INT: throw e.arg;
        case THROW_NESTED: { Bomb b; throw std::string("first"); }
        case TERMINATE: std::terminate();
        case TRAP: __builtin_trap();
        case NULLWRITE: null_write(); break;
        case EXIT_NOW: _exit(e.arg);
        case STOP_CONT:
            sh->child_pid = getpid();
            raise(SIGSTOP);
            return e.arg;
        default: break;
    }
    return 0;
}
static End draw(vt::Rng &r) {
    if (r.chance(35)) return {RET, r.coin() ? static_cast<int>(r.below(256)) : static_cast<int>(r.below(3))};
    if (r.chance(40)) return {r.coin() ? RAISE : KILL, r.pick(const_cast<std::vector<int> &>(fatal_signals()))};
    Kind k = static_cast<Kind>(r.below(NKINDS));
    if (k == STOP_CONT || k == RAISE || k == KILL) k = ABORT;
    int a = static_cast<int>(k == EXIT_NOW || k == RET ? r.below(256) : r.below(100));
    return {k, a};
}

// ---------------------------------------------------------------- P's own state
static volatile sig_atomic_t g_handled;
static void handler(int) {
    g_handled = g_handled + 1;
    if (sh->child_pid.load() > 0) kill(sh->child_pid.load(), SIGCONT);
    sh->interrupts++;
}
static void siginfo_handler(int, siginfo_t *, void *) { handler(0); }
static void exit_zero(int) { _exit(0); } // a handler that would hide the signal if the child inherited it
struct Snapshot {
    struct sigaction sa[65];
    bool valid[65];
    sigset_t mask;
    std::vector<int> fds;
    std::string cwd;
    mode_t um;
    char *env;
};
static Snapshot snap() {
    Snapshot s{};
    for (int i = 1; i < 65; ++i) s.valid[i] = sigaction(i, nullptr, &s.sa[i]) == 0;
    sigprocmask(SIG_SETMASK, nullptr, &s.mask);
    for (int fd = 0; fd < 64; ++fd)
        if (fcntl(fd, F_GETFD) >= 0) s.fds.push_back(fd);
    char buf[4096];
    s.cwd = getcwd(buf, sizeof buf) ? buf : "";
    s.um = umask(0);
    umask(s.um);
    s.env = getenv("VT_SANDBOX");
    return s;
}
static void compare(Snapshot const &a, Snapshot const &b) {
    for (int i = 1; i < 65; ++i) {
        if (a.valid[i] != b.valid[i]) continue;
        if (!a.valid[i]) continue;
        if (a.sa[i].sa_handler != b.sa[i].sa_handler || a.sa[i].sa_flags != b.sa[i].sa_flags) pfail("parent-signal-handler", "the disposition of signal %d changed in the parent", i);
        for (int k = 1; k < 65; ++k)
            if (sigismember(&a.sa[i].sa_mask, k) != sigismember(&b.sa[i].sa_mask, k)) { pfail("parent-signal-handler", "the mask of the handler of signal %d changed in the parent", i); break; }
    }
    for (int k = 1; k < 65; ++k)
        if (sigismember(&a.mask, k) != sigismember(&b.mask, k)) pfail("parent-signal-mask", "signal %d was %s, is %s in the parent", k, sigismember(&a.mask, k) ? "blocked" : "unblocked", sigismember(&b.mask, k) ? "blocked" : "unblocked");
    if (a.fds != b.fds) pfail("parent-descriptors", "%zu open descriptors before, %zu after", a.fds.size(), b.fds.size());
    if (a.cwd != b.cwd || a.um != b.um || a.env != b.env) pfail("parent-process-state", "working directory, umask or environment changed");
}

struct Token {
    std::string text;
    bool optional;
};
static std::ofstream g_file; // static: a child running destructors would flush P's pending bytes a second time
static FILE *g_own;
static std::vector<Token> g_expect[5]; // stdout, cout, cerr, own FILE*, ofstream
static std::string g_mem = "parent memory";

static void put(int stream, std::string const &t) {
    switch (stream) {
        case 0: fputs(t.c_str(), stdout); break;
        case 1: std::cout << t; break;
        case 2: std::cerr << t; break;
        case 3: fputs(t.c_str(), g_own); break;
        default: g_file << t; break;
    }
}
struct Guarded { // destructors of the caller's objects must not run in the child
    int owner = getpid();
    ~Guarded() {
        if (getpid() != owner) sh->handlers_in_child++;
    }
};

// a process that left DICE_SANDBOX without being the one that entered it must not go on (and multiply)
struct Here {
    int owner = getpid();
    void check() const {
        if (getpid() != owner) {
            pfail("child-continued", "the child came back from the sandbox into the caller's code");
            _exit(0);
        }
    }
};

// one sandbox run by P
static void one(vt::Rng &r, int idx, bool nested_allowed, std::vector<End> const *fixed = nullptr) {
    End const e = fixed ? (*fixed)[static_cast<size_t>(idx)] : draw(r);
    int const pstream = static_cast<int>(r.below(5)), cstream = static_cast<int>(r.below(4));
    std::string const ptok = "p" + std::to_string(idx) + "s" + std::to_string(pstream) + ";", ctok = "c" + std::to_string(idx) + "s" + std::to_string(cstream) + ";";
    put(pstream, ptok); // still buffered when the child is forked
    g_expect[pstream].push_back({ptok, false});
    bool const nest = nested_allowed && r.chance(15);
    bool const delay = r.chance(30) || e.kind == STOP_CONT;
    bool const mess = r.chance(60);
    int local = 7;
    std::string str = g_mem;
    auto const heap = std::make_unique<int>(5);
    int *const volatile heap_p = heap.get();
    sh->reached = 0;
    sh->child_pid = 0;
    Snapshot const before = snap();
    auto const body = [&]() -> int {
        sh->reached++;
        if (delay && e.kind != STOP_CONT) usleep(3000);
        if (mess) { // change everything a process can change in itself
            local = 99;
            str = "changed";
            g_mem = "changed by the child";
            *heap_p = 1234;
            for (int s : {SIGUSR1, SIGTERM, SIGALRM}) signal(s, SIG_DFL);
            sigset_t all;
            sigemptyset(&all);
            sigaddset(&all, SIGUSR2 == e.arg ? SIGURG : SIGUSR2);
            sigprocmask(SIG_BLOCK, &all, nullptr);
            (void) !chdir("/");
            umask(0123);
            setenv("VT_SANDBOX", "child", 1);
            close(0);
        }
        if (nest) {
            Here const inner;
            auto const in = DICE_SANDBOX -> int { return 3; };
            inner.check();
            if (in != Res::ExitFailure) pfail("wrong-result", "a nested sandbox returning 3 reported %d", static_cast<int>(in));
            auto const in2 = DICE_SANDBOX { raise(SIGTERM); };
            inner.check();
            if (in2 != Res::Terminated) pfail("wrong-result", "a nested sandbox ended by SIGTERM reported %d", static_cast<int>(in2));
            sh->nested++;
        }
        put(cstream, ctok);
        return act(e);
    };
    Res got{};
    Here const here;
    try {
        if (e.kind == VOID) {
            got = DICE_SANDBOX { Guarded g; (void) body(); };
        } else {
            Guarded g;
            got = DICE_SANDBOX -> int { return body(); };
        }
    } catch (std::exception const &ex) {
        here.check();
        pfail("sandbox-threw", "%s: %s", describe(e).c_str(), ex.what());
        return;
    }
    here.check();
    sh->runs++;
    auto const want = expected(e);
    if (std::find(want.begin(), want.end(), static_cast<int>(got)) == want.end()) pfail("wrong-result", "the child ended by [%s], the sandbox reported %d", describe(e).c_str(), static_cast<int>(got));
    if (sh->reached != 1) pfail("wrong-runs", "the function ran %d times", sh->reached.load());
    if (e.kind == RET || e.kind == VOID || e.kind == EXIT_NOW) sh->exits++;
    else if (e.kind == THROW_STD || e.kind == THROW_INT || e.kind == THROW_NESTED) sh->exceptions++;
    else if (e.kind == STOP_CONT) sh->stopped++;
    else sh->signals++;
    // output of a child that returned must be there; buffered output of one that was killed may be lost
    bool const returned = e.kind == RET || e.kind == VOID || e.kind == STOP_CONT;
    if (!returned) sh->child_token_optional++;
    g_expect[cstream].push_back({ctok, !returned});
    compare(before, snap());
    if (local != 7 || str != "parent memory" || g_mem != "parent memory" || *heap_p != 5) pfail("parent-memory", "the parent's variables changed");
}
static int g_atexit_owner;
static void at_exit_hook() {
    if (getpid() != g_atexit_owner) sh->handlers_in_child++;
}
static void no_children(char const *when) {
    int st, p = waitpid(-1, &st, WNOHANG);
    if (!(p < 0 && errno == ECHILD)) pfail("left-behind", "%s: waitpid(-1) found %d", when, p);
}
// the program of P
static void program(vt::Rng &r, uint64_t mode, std::vector<End> const *fixed) {
    setenv("VT_SANDBOX", "parent", 1);
    g_atexit_owner = getpid();
    atexit(at_exit_hook);
    if (mode & 1) std::ios_base::sync_with_stdio(false);
    // signal dispositions
    std::vector<int> sigs{SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGHUP, SIGQUIT, SIGPIPE, SIGXCPU, SIGSYS, SIGRTMIN, SIGRTMAX, SIGIO};
    for (int s : sigs) {
        struct sigaction sa{};
        switch (r.below(6)) {
            case 0: sa.sa_handler = SIG_IGN; break;
            case 1: sa.sa_handler = handler; break;
            case 2: sa.sa_sigaction = siginfo_handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaddset(&sa.sa_mask, SIGTERM); break;
            case 3: sa.sa_handler = exit_zero; sa.sa_flags = SA_RESETHAND; break;
            default: continue;
        }
        sigaction(s, &sa, nullptr);
    }
    if (r.chance(50)) { // blocked signals, one of them pending
        sigset_t m;
        sigemptyset(&m);
        for (int s : sigs)
            if (r.chance(40)) sigaddset(&m, s);
        sigaddset(&m, SIGVTALRM);
        sigprocmask(SIG_BLOCK, &m, nullptr);
        raise(SIGVTALRM);
    }
    { // interrupts of the wait (the interval starts in P only: children do not inherit timers)
        struct sigaction sa{};
        sa.sa_handler = handler;
        sa.sa_flags = r.chance(30) ? SA_RESTART : 0;
        sigaction(SIGALRM, &sa, nullptr);
        sigaction(SIGCHLD, r.coin() ? &sa : nullptr, nullptr);
        if (mode & 2) {
            itimerval tv{{0, 700}, {0, 700}};
            setitimer(ITIMER_REAL, &tv, nullptr);
        }
    }
    // another child of P: must be left alone
    int other = -1, other_status = static_cast<int>(r.below(200));
    if (mode & 4) {
        other = fork();
        if (other == 0) _exit(other_status);
        usleep(2000);
    }
    int const n = fixed ? static_cast<int>(fixed->size()) : static_cast<int>(1 + r.below(5));
    for (int i = 0; i < n; ++i) {
        one(r, i, !fixed, fixed);
        if (other < 0) no_children("after a sandbox");
    }
    if (mode & 2) { // a child that stops and is continued by the parent's timer
        std::vector<End> stop{{STOP_CONT, static_cast<int>(r.below(3))}};
        int const idx = 0;
        g_expect[0].push_back({"", true});
        auto const e = stop[static_cast<size_t>(idx)];
        sh->child_pid = 0;
        Here const here;
        auto const got = DICE_SANDBOX -> int { return act(e); };
        here.check();
        if (static_cast<int>(got) != expected(e)[0]) pfail("wrong-result", "a child that was stopped, continued and returned %d: the sandbox reported %d", e.arg, static_cast<int>(got));
        sh->stopped++;
        itimerval off{};
        setitimer(ITIMER_REAL, &off, nullptr);
    }
    if (mode & 8) { // no more processes allowed: fork fails
        rlimit lim{0, 0};
        if (setrlimit(RLIMIT_NPROC, &lim) == 0 && setgid(65534) == 0 && setuid(65534) == 0) {
            int const probe = fork();
            if (probe == 0) _exit(0);
            if (probe > 0) {
                waitpid(probe, nullptr, 0);
            } else {
                bool threw = false;
                try {
                    auto const got = DICE_SANDBOX { sh->reached = 77; };
                    pfail("fork-failure", "no process could be made, the sandbox reported %d", static_cast<int>(got));
                } catch (std::system_error const &) { threw = true; }
                catch (...) {}
                if (!threw) pfail("fork-failure", "no std::system_error");
                if (sh->reached == 77) pfail("fork-failure", "the function ran in the parent");
                sh->forks_failed++;
                if (other < 0) no_children("after a failed fork");
            }
        }
    }
    if (other >= 0) {
        int st = 0, p;
        do p = waitpid(other, &st, 0);
        while (p < 0 && errno == EINTR);
        if (p != other || !WIFEXITED(st) || WEXITSTATUS(st) != other_status) pfail("foreign-child", "the status of another child of the parent is gone");
        sh->foreign_children++;
        no_children("at the end");
    }
}

static void check_output(std::string const &all) {
    std::vector<std::string> seen[5];
    size_t pos = 0;
    while (pos < all.size()) {
        size_t e = all.find(';', pos);
        std::string t = all.substr(pos, e == std::string::npos ? std::string::npos : e - pos + 1);
        pos = e == std::string::npos ? all.size() : e + 1;
        size_t s = t.rfind('s');
        if (s == std::string::npos || s + 1 >= t.size() || t[s + 1] < '0' || t[s + 1] > '4') continue; // e.g. the message of std::terminate
        size_t b = t.find_first_of("pc", t[0] == 'p' || t[0] == 'c' ? 0 : t.find_last_of("\n") == std::string::npos ? 0 : t.find_last_of("\n"));
        if (b == std::string::npos) continue;
        seen[t[s + 1] - '0'].push_back(t.substr(b));
    }
    for (int k = 0; k < 5; ++k) {
        size_t i = 0;
        std::string got, want;
        for (auto &t : seen[k]) got += t;
        bool ok = true;
        for (auto &t : g_expect[k]) {
            want += t.optional ? "(" + t.text + ")" : t.text;
            if (i < seen[k].size() && seen[k][i] == t.text) ++i;
            else if (!t.optional) ok = false;
        }
        if (!ok || i != seen[k].size()) pfail("buffered-output", "stream %d holds [%s], should hold [%s]", k, got.c_str(), want.c_str());
    }
}

static void in_own_process(vt::Rng &r, uint64_t i, uint64_t mode, std::vector<End> const *fixed) {
    fflush(nullptr);
    std::cout.flush();
    memset(static_cast<void *>(sh), 0, sizeof *sh);
    int const pid = fork();
    if (pid < 0) {
        vt::fail("harness", "fork failed");
        return;
    }
    if (pid == 0) {
        setpgid(0, 0);
        rlimit nocore{0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        int const fd1 = memfd_create("o", 0), fd2 = memfd_create("f", 0), fd3 = memfd_create("g", 0);
        dup2(fd1, 1);
        dup2(fd1, 2);
        // appending, so that the parent and its children share one position
        g_own = fdopen(fd2, "w");
        g_file.open("/proc/self/fd/" + std::to_string(fd3), std::ios::app);
        program(r, mode, fixed);
        std::cout.flush();
        std::cerr.flush();
        g_file.flush();
        fflush(nullptr);
        std::string all;
        for (int fd : {fd1, fd2, fd3}) {
            char buf[4096];
            off_t off = 0;
            for (ssize_t k; (k = pread(fd, buf, sizeof buf, off)) > 0; off += k) all.append(buf, static_cast<size_t>(k));
            all += ";";
        }
        check_output(all);
        if (sh->handlers_in_child != 0) pfail("destructors-in-child", "destructors or exit handlers of the parent ran in the child");
        sh->finished = 1;
        _exit(0);
    }
    setpgid(pid, pid);
    int st = 0, waited = 0;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        usleep(200);
        if (++waited > 100000) { // 20 s and more
            kill(-pid, SIGKILL);
            waitpid(pid, &st, 0);
            vt::fail("parent-stuck", "the parent did not continue (20 s)");
            return;
        }
    }
    kill(-pid, SIGKILL); // anything left behind
    for (int k = 0; k < std::min(8, sh->nfail.load()); ++k) vt::fail(sh->key[k], "%s", sh->msg[k]);
    if (!sh->finished) vt::fail("parent-ended", "the parent did not reach its end (status %d)", st);
    vt::count("sandboxes", sh->runs);
    vt::count("ended_by_exit", sh->exits);
    vt::count("ended_by_signal", sh->signals);
    vt::count("ended_by_exception", sh->exceptions);
    vt::count("nested_sandboxes", sh->nested);
    vt::count("signals_in_parent", sh->interrupts);
    vt::count("stopped_and_continued", sh->stopped);
    vt::count("other_children_kept", sh->foreign_children);
    vt::count("failed_forks", sh->forks_failed);
    vt::distinct(vt::mix(i, mode + (fixed ? 1000 : 0)));
}

static void vt_main() {
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    // every exit code, every fatal signal by raise and kill, every other ending
    std::vector<End> all;
    for (int c = 0; c < 256; ++c) all.push_back({RET, c});
    for (int c : {0, 1, 77, 255}) all.push_back({EXIT_NOW, c});
    all.push_back({RET, -1});
    for (int s : fatal_signals()) all.push_back({RAISE, s}), all.push_back({KILL, s});
    for (int k : {VOID, ABORT, THROW_STD, THROW_INT, THROW_NESTED, TERMINATE, TRAP, NULLWRITE}) all.push_back({static_cast<Kind>(k), 1});
    vt::run("every-ending", (all.size() + 15) / 16, [&](vt::Rng &r, uint64_t i) {
        std::vector<End> part(all.begin() + static_cast<long>(16 * i), all.begin() + static_cast<long>(std::min<size_t>(all.size(), 16 * i + 16)));
        in_own_process(r, i, r.below(8), &part);
        if (vt::want_sample("endings")) vt::sample("endings", describe(part.front()) + " .. " + describe(part.back()));
    }, false);
    vt::run("programs", 100, [&](vt::Rng &r, uint64_t i) { in_own_process(r, i, i % 16, nullptr); });
}
VT_MAIN
