// Runtime of the controlled scheduler.  Compiled WITHOUT -fsanitize=thread; the harness is compiled WITH it, but
// linked against the __tsan_* callbacks below instead of libtsan.
#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace {

long raw_futex(uint32_t *addr, int op, uint32_t val, timespec const *ts = nullptr) {
    long ret;
    register long r10 asm("r10") = reinterpret_cast<long>(ts);
    register long r8 asm("r8") = 0;
    register long r9 asm("r9") = 0;
    asm volatile("syscall" : "=a"(ret) : "a"(static_cast<long>(SYS_futex)), "D"(addr), "S"(static_cast<long>(op)), "d"(static_cast<long>(val)), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

struct Sem {
    std::atomic<uint32_t> v{0};
    void post() {
        v.store(1, std::memory_order_release);
        raw_futex(reinterpret_cast<uint32_t *>(&v), FUTEX_WAKE_PRIVATE, INT_MAX);
    }
    // returns false on timeout
    bool wait(long ms = -1) {
        timespec ts{ms / 1000, (ms % 1000) * 1000000};
        for (;;) {
            uint32_t one = 1;
            if (v.compare_exchange_strong(one, 0, std::memory_order_acquire)) return true;
            long r = raw_futex(reinterpret_cast<uint32_t *>(&v), FUTEX_WAIT_PRIVATE, 0, ms >= 0 ? &ts : nullptr);
            if (ms >= 0 && r == -ETIMEDOUT) {
                one = 1;
                return v.compare_exchange_strong(one, 0, std::memory_order_acquire);
            }
        }
    }
};

enum class Wait { none, mutex, rd, wr, cond, futex, gate, start };

struct Thread {
    unsigned id = 0;
    Sem sem;
    bool done = true;
    Wait wait = Wait::none;
    void *obj = nullptr;
    void *cond_mutex = nullptr;
    bool timed = false, timed_out = false;
    bool woken = false;
    unsigned prio = 0;
    std::function<void()> const *body = nullptr;
    uint64_t blocks = 0;
    pthread_t handle;
};

struct MState { int owner = -1; int depth = 0; };
struct RState { int writer = -1; int readers = 0; };

struct Rt {
    std::vector<Thread *> th;
    unsigned n = 0;
    int cur = -1;
    bool armed = false;
    uint64_t rng = 1;
    sched::Config cfg;
    sched::Result res;
    uint64_t clock = 0;
    Sem ctl;
    std::atomic<uint64_t> heartbeat{0};
    enum { none, all_done, stuck, limit } reason = none;
    std::map<void *, MState> mx;
    std::map<void *, RState> rw;
    std::vector<uint64_t> change_points;
    unsigned next_low = 0;
};
Rt &rt() {
    static Rt *r = new Rt;
    return *r;
}
thread_local int tls_id = -1;
thread_local bool tls_in_rt = false;

uint64_t rnd() {
    uint64_t z = (rt().rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct InRt {
    bool old;
    InRt() : old(tls_in_rt) { tls_in_rt = true; }
    ~InRt() { tls_in_rt = old; }
};

bool active() { return tls_id >= 0 && !tls_in_rt && rt().armed; }

bool runnable(unsigned i) {
    auto &r = rt();
    Thread &t = *r.th[i];
    if (t.done) return false;
    switch (t.wait) {
        case Wait::none: return true;
        case Wait::start: return true;
        case Wait::mutex: return r.mx[t.obj].owner < 0;
        case Wait::rd: return r.rw[t.obj].writer < 0;
        case Wait::wr: return r.rw[t.obj].writer < 0 && r.rw[t.obj].readers == 0;
        case Wait::cond:
        case Wait::futex: return t.woken;
        case Wait::gate: return t.woken;
    }
    return false;
}

void note(unsigned tid, unsigned kind) {
    auto &h = rt().res.trace_hash;
    h = (h ^ (tid * 131u + kind + 1)) * 1099511628211ull;
}

[[noreturn]] void park_forever() {
    for (;;) pause();
}

// choose and hand over to the next thread.  `self` must still want the token back iff its state says so.
// Called by the running thread (or by the controller with self = -1).
void dispatch(int self) {
    auto &r = rt();
    r.heartbeat.fetch_add(1, std::memory_order_relaxed);
    if (++r.res.steps > r.cfg.max_steps) {
        r.reason = Rt::limit;
        r.cur = -1;
        bool park = self >= 0 && !r.th[static_cast<unsigned>(self)]->done;
        r.ctl.post();
        if (park) park_forever();
        return;
    }
    unsigned cand[64], nc = 0;
    bool undone = false;
    for (unsigned i = 0; i < r.n; ++i) {
        if (!r.th[i]->done) undone = true;
        if (runnable(i)) cand[nc++] = i;
    }
    // spurious wake-ups of condvar waiters and expiry of timed waits are always legal
    unsigned extra[64], ne = 0;
    for (unsigned i = 0; i < r.n; ++i) {
        Thread &t = *r.th[i];
        if (!t.done && !t.woken && (t.wait == Wait::cond || t.wait == Wait::futex)) {
            if (t.timed || (t.wait == Wait::cond && r.cfg.spurious_pct && nc && rnd() % 100 < r.cfg.spurious_pct)) extra[ne++] = i;
        }
    }
    if (ne && (nc == 0 || rnd() % 4 == 0)) {
        unsigned i = extra[rnd() % ne];
        Thread &t = *r.th[i];
        if (t.timed) t.timed_out = true;
        t.woken = true;
        ++r.res.spurious;
        // a woken condvar waiter competes for its mutex
        if (t.wait == Wait::cond) {
            t.wait = Wait::mutex;
            t.obj = t.cond_mutex;
        }
        if (runnable(i)) {
            bool have = false;
            for (unsigned k = 0; k < nc; ++k) have |= cand[k] == i;
            if (!have) cand[nc++] = i;
        }
    }
    if (nc == 0) {
        r.reason = undone ? Rt::stuck : Rt::all_done;
        r.cur = -1;
        bool done_self = self < 0 || r.th[static_cast<unsigned>(self)]->done;
        r.ctl.post();
        if (self >= 0 && !done_self) r.th[static_cast<unsigned>(self)]->sem.wait();
        return;
    }
    unsigned next;
    if (r.cfg.pct_depth >= 0) {
        if (self >= 0) {
            for (auto cp : r.change_points)
                if (cp == r.res.steps) r.th[static_cast<unsigned>(self)]->prio = r.next_low ? --r.next_low : 0;
        }
        next = cand[0];
        for (unsigned k = 1; k < nc; ++k)
            if (r.th[cand[k]]->prio > r.th[next]->prio) next = cand[k];
    } else {
        bool self_ok = false;
        for (unsigned k = 0; k < nc; ++k) self_ok |= static_cast<int>(cand[k]) == self;
        if (self_ok && rnd() % 100 >= r.cfg.switch_pct) next = static_cast<unsigned>(self);
        else next = cand[rnd() % nc];
    }
    note(next, 0);
    ++r.clock;
    r.cur = static_cast<int>(next);
    if (static_cast<int>(next) != self) {
        ++r.res.switches;
        bool done_self = self < 0 || r.th[static_cast<unsigned>(self)]->done;
        r.th[next]->sem.post();
        if (!done_self) r.th[static_cast<unsigned>(self)]->sem.wait();
    }
}

void do_point(unsigned kind) {
    InRt g;
    note(static_cast<unsigned>(tls_id), kind);
    dispatch(tls_id);
}

// block the calling thread with the given wait state until it is scheduled again
void block(Wait w, void *obj) {
    auto &r = rt();
    Thread &t = *r.th[static_cast<unsigned>(tls_id)];
    t.wait = w;
    t.obj = obj;
    t.woken = false;
    ++r.res.blocks;
    ++t.blocks;
    note(static_cast<unsigned>(tls_id), 100u + static_cast<unsigned>(w));
    dispatch(tls_id);
    t.wait = Wait::none;
}

void v_lock(void *m, bool pt = true) {
    auto &r = rt();
    if (pt) do_point(1);
    InRt g;
    auto &s = r.mx[m];
    if (s.owner == tls_id) { // recursive use (or self-deadlock of a plain mutex)
        if (reinterpret_cast<pthread_mutex_t *>(m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            ++s.depth;
            return;
        }
    }
    while (r.mx[m].owner >= 0) block(Wait::mutex, m);
    r.mx[m].owner = tls_id;
    r.mx[m].depth = 1;
}
int v_trylock(void *m) {
    do_point(2);
    InRt g;
    auto &s = rt().mx[m];
    if (s.owner == tls_id && reinterpret_cast<pthread_mutex_t *>(m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
        ++s.depth;
        return 0;
    }
    if (s.owner >= 0) return EBUSY;
    s.owner = tls_id;
    s.depth = 1;
    return 0;
}
void v_unlock(void *m, bool pt = true) {
    {
        InRt g;
        auto &s = rt().mx[m];
        if (s.depth > 1) {
            --s.depth;
            return;
        }
        if (s.owner != tls_id) ++rt().res.misuse;
        s.owner = -1;
        s.depth = 0;
    }
    if (pt) do_point(3);
}
int v_cond_wait(void *c, void *m, bool timed) {
    do_point(14); // between the caller's predicate and the wait
    InRt g;
    auto &r = rt();
    Thread &t = *r.th[static_cast<unsigned>(tls_id)];
    r.mx[m].owner = -1;
    r.mx[m].depth = 0;
    t.cond_mutex = m;
    t.timed = timed;
    t.timed_out = false;
    block(Wait::cond, c);
    t.timed = false;
    while (r.mx[m].owner >= 0) block(Wait::mutex, m);
    r.mx[m].owner = tls_id;
    r.mx[m].depth = 1;
    return timed && t.timed_out ? ETIMEDOUT : 0;
}
void v_cond_signal(void *c, bool all) {
    do_point(4);
    InRt g;
    auto &r = rt();
    unsigned w[64], n = 0;
    for (unsigned i = 0; i < r.n; ++i)
        if (!r.th[i]->done && r.th[i]->wait == Wait::cond && r.th[i]->obj == c && !r.th[i]->woken) w[n++] = i;
    while (n) {
        unsigned k = static_cast<unsigned>(rnd() % n);
        Thread &t = *r.th[w[k]];
        t.woken = true;
        t.wait = Wait::mutex; // competes for the mutex it released
        t.obj = t.cond_mutex;
        note(w[k], 50);
        if (!all) break;
        w[k] = w[--n];
    }
}

template<class F>
F real(char const *name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void *thread_main(void *arg) {
    Thread &t = *static_cast<Thread *>(arg); // not through rt().th, which run() may be growing
    unsigned const id = t.id;
    tls_in_rt = true;
    tls_id = static_cast<int>(id);
    for (;;) {
        t.sem.wait();
        if (!t.body) continue;
        t.wait = Wait::none;
        tls_in_rt = false;
        (*t.body)();
        tls_in_rt = true;
        t.body = nullptr;
        t.done = true;
        note(id, 99);
        dispatch(static_cast<int>(id));
    }
    return nullptr;
}

char const *wait_name(Wait w) {
    switch (w) {
        case Wait::none: return "running";
        case Wait::mutex: return "mutex";
        case Wait::rd: return "rdlock";
        case Wait::wr: return "wrlock";
        case Wait::cond: return "condvar";
        case Wait::futex: return "futex";
        case Wait::gate: return "gate";
        case Wait::start: return "start";
    }
    return "?";
}

} // namespace

namespace sched {

int self() { return tls_id; }
uint64_t now() { return ++rt().clock; }
uint64_t my_blocks() { return tls_id < 0 ? 0 : rt().th[static_cast<unsigned>(tls_id)]->blocks; }
void point(char const *) {
    if (active()) do_point(5);
}
void quiet(bool on) { tls_in_rt = on; }
unsigned random(unsigned n) { return n ? static_cast<unsigned>(rnd() % n) : 0; }
void gate() {
    if (!active()) return;
    InRt g;
    block(Wait::gate, nullptr);
}
void release(unsigned id) { rt().th[id]->woken = true; }

Result run(Config const &cfg, std::vector<std::function<void()>> const &bodies,
           std::function<bool(std::vector<ThreadInfo> const &)> const &on_stuck) {
    auto &r = rt();
    r.cfg = cfg;
    r.res = Result{};
    r.rng = cfg.seed * 0x9e3779b97f4a7c15ull + 12345;
    r.n = static_cast<unsigned>(bodies.size());
    r.mx.clear();
    r.rw.clear();
    auto create = real<int (*)(pthread_t *, pthread_attr_t const *, void *(*) (void *), void *)>("pthread_create");
    while (r.th.size() < bodies.size()) {
        auto *t = new Thread;
        t->id = static_cast<unsigned>(r.th.size());
        r.th.push_back(t);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        create(&t->handle, &at, thread_main, t);
    }
    r.change_points.clear();
    r.next_low = 0;
    if (cfg.pct_depth >= 0) {
        for (int i = 0; i < cfg.pct_depth; ++i) r.change_points.push_back(1 + rnd() % 160);
        r.next_low = static_cast<unsigned>(cfg.pct_depth) + 1;
    }
    for (unsigned i = 0; i < r.n; ++i) {
        Thread &t = *r.th[i];
        t.done = false;
        t.wait = Wait::start;
        t.obj = nullptr;
        t.woken = false;
        t.timed = t.timed_out = false;
        t.body = &bodies[i];
        t.prio = 100;
    }
    if (cfg.pct_depth >= 0) { // random distinct priorities
        std::vector<unsigned> p(r.n);
        for (unsigned i = 0; i < r.n; ++i) p[i] = 100 + i;
        for (unsigned i = r.n; i > 1; --i) std::swap(p[i - 1], p[rnd() % i]);
        for (unsigned i = 0; i < r.n; ++i) r.th[i]->prio = p[i];
    }
    r.armed = true;
    r.reason = Rt::none;
    for (;;) {
        dispatch(-1);
        // wait for the run to stop, watching for a thread that blocked outside the scheduler
        uint64_t last = r.heartbeat.load();
        unsigned idle = 0;
        while (!r.ctl.wait(500)) {
            uint64_t h = r.heartbeat.load();
            idle = h == last ? idle + 1 : 0;
            last = h;
            if (idle >= 60) { // 30 s without any scheduling point
                r.armed = false;
                r.res.outcome = Outcome::foreign_block;
                return r.res;
            }
        }
        if (r.reason == Rt::all_done) break;
        if (r.reason == Rt::limit) {
            r.armed = false;
            r.res.outcome = Outcome::step_limit;
            return r.res;
        }
        std::vector<ThreadInfo> info(r.n);
        for (unsigned i = 0; i < r.n; ++i) {
            info[i].done = r.th[i]->done;
            info[i].blocked = !r.th[i]->done && !runnable(i);
            info[i].what = wait_name(r.th[i]->wait);
        }
        r.reason = Rt::none;
        if (!on_stuck(info)) {
            r.armed = false;
            r.res.outcome = Outcome::stuck;
            return r.res;
        }
    }
    r.armed = false;
    r.res.outcome = Outcome::finished;
    return r.res;
}

} // namespace sched

// ---------------------------------------------------------------- pthread interposition
extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m) {
    if (active()) {
        v_lock(m);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (active()) return v_trylock(m);
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (active()) {
        v_unlock(m);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    return f(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (active()) return v_cond_wait(c, m, false);
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    return f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *ts) {
    if (active()) return v_cond_wait(c, m, true);
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, timespec const *)>("pthread_cond_timedwait");
    return f(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, timespec const *ts) {
    if (active()) return v_cond_wait(c, m, true);
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, timespec const *)>("pthread_cond_clockwait");
    return f(c, m, ck, ts);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (active()) {
        v_cond_signal(c, false);
        return 0;
    }
    static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    return f(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (active()) {
        v_cond_signal(c, true);
        return 0;
    }
    static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    return f(c);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (active()) {
        do_point(6);
        InRt g;
        while (rt().rw[l].writer >= 0) block(Wait::rd, l);
        ++rt().rw[l].readers;
        return 0;
    }
    static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
    return f(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
    if (active()) {
        do_point(6);
        InRt g;
        if (rt().rw[l].writer >= 0) return EBUSY;
        ++rt().rw[l].readers;
        return 0;
    }
    static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
    return f(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (active()) {
        do_point(7);
        InRt g;
        while (rt().rw[l].writer >= 0 || rt().rw[l].readers > 0) block(Wait::wr, l);
        rt().rw[l].writer = tls_id;
        return 0;
    }
    static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
    return f(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
    if (active()) {
        do_point(7);
        InRt g;
        auto &s = rt().rw[l];
        if (s.writer >= 0 || s.readers > 0) return EBUSY;
        s.writer = tls_id;
        return 0;
    }
    static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
    return f(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (active()) {
        {
            InRt g;
            auto &s = rt().rw[l];
            if (s.writer == tls_id) s.writer = -1;
            else if (s.readers > 0) --s.readers;
            else ++rt().res.misuse;
        }
        do_point(8);
        return 0;
    }
    static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
    return f(l);
}
int sched_yield(void) {
    if (active()) {
        do_point(9);
        return 0;
    }
    static auto f = real<int (*)()>("sched_yield");
    return f();
}
int nanosleep(timespec const *a, timespec *b) {
    if (active()) {
        do_point(9);
        return 0;
    }
    static auto f = real<int (*)(timespec const *, timespec *)>("nanosleep");
    return f(a, b);
}
int clock_nanosleep(clockid_t ck, int fl, timespec const *a, timespec *b) {
    if (active()) {
        do_point(9);
        return 0;
    }
    static auto f = real<int (*)(clockid_t, int, timespec const *, timespec *)>("clock_nanosleep");
    return f(ck, fl, a, b);
}
// std::atomic::wait/notify and std::counting_semaphore reach the kernel through syscall(SYS_futex, ...)
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (auto &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && active()) {
        int op = static_cast<int>(a[1]) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            do_point(10);
            InRt g;
            if (*reinterpret_cast<uint32_t volatile *>(a[0]) != static_cast<uint32_t>(a[2])) {
                errno = EAGAIN;
                return -1;
            }
            Thread &t = *rt().th[static_cast<unsigned>(tls_id)];
            t.timed = a[3] != 0;
            t.timed_out = false;
            block(Wait::futex, reinterpret_cast<void *>(a[0]));
            t.timed = false;
            if (t.timed_out) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            do_point(11);
            InRt g;
            auto &r = rt();
            long n = 0, want = a[2];
            std::vector<unsigned> w;
            for (unsigned i = 0; i < r.n; ++i)
                if (!r.th[i]->done && r.th[i]->wait == Wait::futex && r.th[i]->obj == reinterpret_cast<void *>(a[0]) && !r.th[i]->woken) w.push_back(i);
            while (n < want && !w.empty()) {
                size_t k = rnd() % w.size();
                r.th[w[k]]->woken = true;
                w.erase(w.begin() + static_cast<long>(k));
                ++n;
            }
            return n;
        }
    }
    long ret;
    register long r10 asm("r10") = a[3];
    register long r8 asm("r8") = a[4];
    register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        errno = static_cast<int>(-ret);
        return -1;
    }
    return ret;
}

// ---------------------------------------------------------------- __tsan_* callbacks as scheduling points
static inline void mem_point() {
    if (!active()) return;
    auto &r = rt();
    if (r.cfg.mem_pct == 0) return;
    bool hit;
    {
        InRt g;
        hit = rnd() % 100 < r.cfg.mem_pct;
    }
    if (hit) do_point(12);
}
static inline void atomic_point() {
    if (active()) do_point(13);
}
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read1(void *) { mem_point(); }
void __tsan_read2(void *) { mem_point(); }
void __tsan_read4(void *) { mem_point(); }
void __tsan_read8(void *) { mem_point(); }
void __tsan_read16(void *) { mem_point(); }
void __tsan_write1(void *) { mem_point(); }
void __tsan_write2(void *) { mem_point(); }
void __tsan_write4(void *) { mem_point(); }
void __tsan_write8(void *) { mem_point(); }
void __tsan_write16(void *) { mem_point(); }
void __tsan_volatile_read1(void *) { mem_point(); }
void __tsan_volatile_read2(void *) { mem_point(); }
void __tsan_volatile_read4(void *) { mem_point(); }
void __tsan_volatile_read8(void *) { mem_point(); }
void __tsan_volatile_read16(void *) { mem_point(); }
void __tsan_volatile_write1(void *) { mem_point(); }
void __tsan_volatile_write2(void *) { mem_point(); }
void __tsan_volatile_write4(void *) { mem_point(); }
void __tsan_volatile_write8(void *) { mem_point(); }
void __tsan_volatile_write16(void *) { mem_point(); }
void __tsan_unaligned_read2(void *) { mem_point(); }
void __tsan_unaligned_read4(void *) { mem_point(); }
void __tsan_unaligned_read8(void *) { mem_point(); }
void __tsan_unaligned_read16(void *) { mem_point(); }
void __tsan_unaligned_write2(void *) { mem_point(); }
void __tsan_unaligned_write4(void *) { mem_point(); }
void __tsan_unaligned_write8(void *) { mem_point(); }
void __tsan_unaligned_write16(void *) { mem_point(); }
void __tsan_read_range(void *, unsigned long) { mem_point(); }
void __tsan_write_range(void *, unsigned long) { mem_point(); }
void *__tsan_memcpy(void *d, void const *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
void *__tsan_memmove(void *d, void const *s, unsigned long n) { return memmove(d, s, n); }
void __tsan_atomic_thread_fence(int) { atomic_point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

#define ATOMICS(B, T)                                                                                       \
    T __tsan_atomic##B##_load(T const volatile *a, int) { atomic_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(T volatile *a, T v, int) { atomic_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(T volatile *a, T v, int) { atomic_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(T volatile *a, T v, int) { atomic_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(T volatile *a, T v, int) { atomic_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(T volatile *a, T v, int) { atomic_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(T volatile *a, T v, int) { atomic_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##B##_fetch_xor(T volatile *a, T v, int) { atomic_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(T volatile *a, T v, int) { atomic_point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(T volatile *a, T *e, T v, int, int) {                    \
        atomic_point();                                                                                     \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    }                                                                                                       \
    int __tsan_atomic##B##_compare_exchange_weak(T volatile *a, T *e, T v, int, int) {                      \
        atomic_point();                                                                                     \
        if (active()) { /* weak CAS may fail spuriously */                                                  \
            bool f;                                                                                         \
            {                                                                                               \
                InRt g;                                                                                     \
                f = rnd() % 100 < 5;                                                                        \
            }                                                                                               \
            if (f) {                                                                                        \
                *e = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                  \
                return 0;                                                                                   \
            }                                                                                               \
        }                                                                                                   \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    }                                                                                                       \
    T __tsan_atomic##B##_compare_exchange_val(T volatile *a, T e, T v, int, int) {                          \
        atomic_point();                                                                                     \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                   \
        return e;                                                                                           \
    }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
}
