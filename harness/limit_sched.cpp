// C11 (concurrent part).  Default: controlled scheduler; with LIMIT_STRESS: free-running threads (ThreadSanitizer).
// Oracles: bytes live upstream never exceed the limit (checked inside the upstream allocator at every call); the history of
// reserve/release is linearizable to a counter that accepts exactly what fits; the whole quota is back at the end.
#include "linearize.hpp"
#ifndef LIMIT_STRESS
#include "sched.hpp"
#else
namespace sched { // nothing is controlled: the runtime is not linked in
struct Quiet { Quiet() {} };
inline void point(char const *) {}
inline uint64_t now() { return 0; }
}
#include <atomic>
#endif
#include "vt.hpp"
#include <dice/template-library/limit_allocator.hpp>
#include <memory>
#include <thread>

namespace dtl = dice::template_library;

struct Upstream {
    std::atomic<size_t> live{0}, over{0};
    size_t limit = 0;
    bool controlled = false;
    bool fail_next[8] = {};
    bool reached[8] = {};
    uint64_t reached_at[8] = {};
    uint64_t calls = 0;
};
static Upstream *up;
static thread_local unsigned tid;

template<class T>
struct Probe {
    using value_type = T;
    Probe() = default;
    template<class U> Probe(Probe<U> const &) noexcept {}
    T *allocate(size_t n) {
        if (up->controlled) {
            sched::point("upstream");
            sched::Quiet q;
            up->reached[tid] = true;
            up->reached_at[tid] = sched::now();
            size_t now = up->live.load(std::memory_order_relaxed) + n * sizeof(T);
            if (up->fail_next[tid]) throw std::bad_alloc{};
            up->live.store(now, std::memory_order_relaxed);
            if (now > up->limit) up->over = now;
        } else {
            if (up->fail_next[tid]) throw std::bad_alloc{};
            size_t now = up->live.fetch_add(n * sizeof(T), std::memory_order_relaxed) + n * sizeof(T);
            if (now > up->limit) up->over = now;
        }
        return static_cast<T *>(::operator new(n * sizeof(T)));
    }
    void deallocate(T *p, size_t n) {
        if (up->controlled) {
            sched::point("upstream"); // the block is still live: its quota must not be available yet
            sched::Quiet q;
            up->live.store(up->live.load(std::memory_order_relaxed) - n * sizeof(T), std::memory_order_relaxed);
        } else {
            if (n % 8 == 1) std::this_thread::yield();
            up->live.fetch_sub(n * sizeof(T), std::memory_order_relaxed);
        }
        ::operator delete(p);
        if (up->controlled) sched::point("upstream");
    }
    friend bool operator==(Probe const &, Probe const &) = default;
};

#ifndef LIMIT_STRESS
enum { TAKE, GIVE };
static thread_local size_t g_limit;
struct Model {
    struct State {
        size_t used = 0;
        std::string key() const { return std::to_string(used); }
    };
    static bool apply(State &s, lin::Op const &o) {
        auto n = static_cast<size_t>(o.arg);
        if (o.kind == GIVE) {
            if (s.used < n) return false;
            s.used -= n;
            return true;
        }
        bool fits = s.used + n <= g_limit;
        if (fits != (o.res != 0)) return false;
        if (fits) s.used += n;
        return true;
    }
    static bool apply_pending(State &, lin::Op const &) { return false; }
};
static std::string show(std::vector<lin::Op> const &h) {
    std::string s;
    for (auto &o : h) s += vt::fmt("[t%d %s %d=%d @%llu..%llu] ", o.thread, o.kind == TAKE ? "take" : "give", o.arg, o.res, (unsigned long long) o.call, (unsigned long long) o.ret);
    return s;
}

static void controlled(vt::Rng &r, uint64_t) {
    Upstream u;
    up = &u;
    u.controlled = true;
    size_t limit = u.limit = g_limit = 8 * (1 + r.below(6));
    dtl::limit_allocator<char, Probe> base(limit);
    unsigned nt = 2 + static_cast<unsigned>(r.below(3));
    struct PO { int kind; int n; bool fail; bool wide; };
    std::vector<std::vector<PO>> prog(nt);
    std::string text = vt::fmt("limit %zu: ", limit);
    for (auto &p : prog) {
        int n = 2 + static_cast<int>(r.below(5));
        for (int i = 0; i < n; ++i) {
            PO o{r.chance(65) ? TAKE : GIVE, static_cast<int>(8 * (1 + r.below(4))), r.chance(15), r.coin()};
            text += vt::fmt("%s%d%s ", o.kind == TAKE ? "+" : "-", o.n, o.fail ? "!" : "");
            p.push_back(o);
        }
        text += "; ";
    }
    sched::Config cfg;
    cfg.seed = r.u64();
    unsigned strat = static_cast<unsigned>(r.below(4));
    if (strat == 0) cfg.pct_depth = static_cast<int>(r.below(5));
    else cfg.switch_pct = strat == 1 ? 15 : strat == 2 ? 40 : 75;
    std::vector<lin::Op> hist;
    hist.reserve(200);
    uint64_t upfail = 0, rejected = 0;
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nt; ++t)
        bodies.push_back([&, t] {
            tid = t;
            dtl::limit_allocator<char, Probe> ac(base);
            dtl::limit_allocator<double, Probe> ad(base);
            struct B { void *p; int n; bool wide; };
            std::vector<B> mine;
            auto give = [&](B b) {
                uint64_t call = sched::now();
                if (b.wide) ad.deallocate(static_cast<double *>(b.p), static_cast<size_t>(b.n) / 8);
                else ac.deallocate(static_cast<char *>(b.p), static_cast<size_t>(b.n));
                sched::Quiet q;
                hist.push_back({static_cast<int>(t), GIVE, b.n, 1, call, sched::now()});
            };
            for (auto &o : prog[t]) {
                if (o.kind == GIVE) {
                    if (mine.empty()) continue;
                    B b = mine.back();
                    mine.pop_back();
                    give(b);
                    continue;
                }
                u.fail_next[t] = o.fail;
                u.reached[t] = false;
                uint64_t call = sched::now();
                try {
                    void *p = o.wide ? static_cast<void *>(ad.allocate(static_cast<size_t>(o.n) / 8)) : ac.allocate(static_cast<size_t>(o.n));
                    sched::Quiet q;
                    hist.push_back({static_cast<int>(t), TAKE, o.n, 1, call, sched::now()});
                    mine.push_back({p, o.n, o.wide});
                } catch (std::bad_alloc const &) {
                    sched::Quiet q;
                    if (u.reached[t]) { // upstream failed: the quota was taken before and given back after that moment
                        ++upfail;
                        hist.push_back({static_cast<int>(t), TAKE, o.n, 1, call, u.reached_at[t]});
                        hist.push_back({static_cast<int>(t), GIVE, o.n, 1, u.reached_at[t], sched::now()});
                    } else {
                        ++rejected;
                        hist.push_back({static_cast<int>(t), TAKE, o.n, 0, call, sched::now()});
                    }
                }
            }
            while (!mine.empty()) {
                B b = mine.back();
                mine.pop_back();
                give(b);
            }
        });
    auto res = sched::run(cfg, bodies, [](auto const &) { return false; });
    vt::count("scheduling_points", res.steps);
    vt::count("context_switches", res.switches);
    vt::count("upstream_failures_concurrent", upfail);
    vt::count("limit_rejections_concurrent", rejected);
    vt::distinct(vt::mix(res.trace_hash, vt::hash_str(text)));
    if (res.outcome != sched::Outcome::finished) {
        if (res.outcome == sched::Outcome::stuck) vt::fail_s("stuck", text);
        else printf("@INCONCLUSIVE controlled scheduling not possible (outcome %d)\n", static_cast<int>(res.outcome));
        fflush(stdout);
        _exit(vt::finish() ? 10 : 0);
    }
    if (u.over) vt::fail_s("over-limit", vt::fmt("%zu bytes live upstream; ", u.over.load()) + text + show(hist));
    if (hist.size() <= 62) {
        lin::Checker<Model> ck(hist);
        if (!ck.check({})) vt::fail_s("not-a-quota", text + show(hist));
        if (!ck.exhausted) vt::count("histories_linearized");
    }
    if (vt::want_sample("quota history")) vt::sample("quota history", text + show(hist));
    u.controlled = false;
    tid = 0;
    u.fail_next[0] = false;
    try {
        base.deallocate(base.allocate(limit), limit);
    } catch (std::bad_alloc const &) {
        vt::fail_s("quota-leaked", text + show(hist));
    }
    try {
        base.deallocate(base.allocate(limit + 1), limit + 1);
        vt::fail_s("quota-grew", text + show(hist));
    } catch (std::bad_alloc const &) {
    }
}

#else
static void stress(vt::Rng &r, uint64_t) {
    Upstream u;
    up = &u;
    size_t limit = u.limit = 512 + r.below(4096);
    dtl::limit_allocator<int, Probe> base(limit);
    unsigned nt = 2 + static_cast<unsigned>(r.below(6));
    std::atomic<uint64_t> ok{0}, no{0};
    std::vector<uint64_t> seeds;
    for (unsigned t = 0; t < nt; ++t) seeds.push_back(r.u64());
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            tid = t;
            vt::Rng q(seeds[t]);
            auto a = base;
            dtl::limit_allocator<char, Probe> c(a);
            std::vector<std::pair<int *, size_t>> mine;
            std::vector<char, dtl::limit_allocator<char, Probe>> v(c);
            for (int i = 0; i < 400; ++i) {
                u.fail_next[t] = q.chance(10);
                try {
                    if (q.chance(20)) {
                        auto b = a; // copies share the control block
                        a = b;
                    }
                    if (q.chance(10)) v.push_back('x');
                    if (mine.size() > 6 || q.chance(45)) {
                        if (!mine.empty()) {
                            a.deallocate(mine.back().first, mine.back().second);
                            mine.pop_back();
                        }
                    } else {
                        size_t n = q.below(60);
                        int *p = a.allocate(n);
                        mine.emplace_back(p, n);
                        for (size_t k = 0; k < n; ++k) p[k] = static_cast<int>(t);
                        ok.fetch_add(1, std::memory_order_relaxed);
                    }
                } catch (std::bad_alloc const &) {
                    no.fetch_add(1, std::memory_order_relaxed);
                }
            }
            for (auto &[p, n] : mine) a.deallocate(p, n);
        });
    for (auto &t : th) t.join();
    vt::count("stress_allocations", ok);
    vt::count("stress_bad_allocs", no);
    if (u.over) vt::fail("over-limit", "%zu bytes live upstream, limit %zu", u.over.load(), limit);
    if (u.live) vt::fail("live", "%zu bytes live at the end", u.live.load());
    u.fail_next[0] = false;
    tid = 0;
    try {
        size_t n = limit / sizeof(int);
        base.deallocate(base.allocate(n), n);
    } catch (std::bad_alloc const &) {
        vt::fail("quota-leaked", "limit %zu", limit);
    }
    try {
        size_t n = limit / sizeof(int) + 1;
        base.deallocate(base.allocate(n), n);
        vt::fail("quota-grew", "limit %zu", limit);
    } catch (std::bad_alloc const &) {
    }
    vt::distinct(vt::mix(limit, ok * 1000 + no));
}

static void vt_main() { vt::run("stress", 300, stress); }
#endif
#ifndef LIMIT_STRESS
static void vt_main() { vt::run("limit-sched", 20000, controlled); }
#endif
VT_MAIN
