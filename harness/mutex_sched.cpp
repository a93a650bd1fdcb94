// C05/C06: random programs over mutex<T> / shared_mutex<T> guards under the controlled scheduler.
// Oracles: per-mutex history of acquire/try/release is linearizable to a lock (exclusive or readers-writer); try operations never
// block; no thread is blocked while the lock is free; guards refer to their own mutex's value; no torn reads; no lost updates;
// nothing is unlocked that is not held.
#include "linearize.hpp"
#include "sched.hpp"
#include "vt.hpp"
#include <concepts>
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <memory>
#include <optional>

namespace dtl = dice::template_library;

struct Val {
    int id = -1;
    long a = 0, b = 0;
    Val() = default;
    Val(int i, long x) : id(i), a(x), b(x) {}
};

enum K { LOCK, TRY, LOCK_SH, TRY_SH, UNLOCK, UNLOCK_SH };
struct LockModel {
    struct State {
        bool writer = false;
        int readers = 0;
        std::string key() const { return std::string(1, writer ? 'w' : '-') + std::to_string(readers); }
    };
    static bool apply(State &s, lin::Op const &o) {
        switch (o.kind) {
            case LOCK:
            case TRY:
                if (!o.res) return s.writer || s.readers;
                if (s.writer || s.readers) return false;
                s.writer = true;
                return true;
            case LOCK_SH:
            case TRY_SH:
                if (!o.res) return s.writer;
                if (s.writer) return false;
                ++s.readers;
                return true;
            case UNLOCK:
                if (!s.writer) return false;
                s.writer = false;
                return true;
            case UNLOCK_SH:
                if (!s.readers) return false;
                --s.readers;
                return true;
        }
        return false;
    }
    static bool apply_pending(State &, lin::Op const &) { return false; }
};
static char const *kname[] = {"lock", "try_lock", "lock_shared", "try_lock_shared", "unlock", "unlock_shared"};
static std::string show(std::vector<lin::Op> const &h) {
    std::string s;
    for (auto &o : h) s += vt::fmt("[t%d m%d %s=%d @%llu..%llu] ", o.thread, o.arg, kname[o.kind], o.res, (unsigned long long) o.call, (unsigned long long) o.ret);
    return s;
}
struct Stop {};

// custom lockables: the library promises to work on any mutex type
struct TicketMutex { // forwards to std::mutex
    std::mutex m;
    int extra = 0;
    void lock() { m.lock(); }
    bool try_lock() { return m.try_lock(); }
    void unlock() { m.unlock(); }
};
struct TicketSharedMutex {
    std::shared_mutex m;
    void lock() { m.lock(); }
    bool try_lock() { return m.try_lock(); }
    void unlock() { m.unlock(); }
    void lock_shared() { m.lock_shared(); }
    bool try_lock_shared() { return m.try_lock_shared(); }
    void unlock_shared() { m.unlock_shared(); }
};

template<class M, bool Shared>
struct read_guard {
    using type = std::remove_cvref_t<decltype(std::declval<M &>().lock())>;
};
template<class M>
struct read_guard<M, true> {
    using type = std::remove_cvref_t<decltype(std::declval<M const &>().lock_shared())>;
};
struct POp {
    int kind; // 0 acquire blocking, 1 try, 2 move slot, 3 drop, 4 swap, 5 access, 6 scope left by exception, 7 nested block scope
    int m, s, s2;
    bool sh;
};

template<class M, bool Shared>
void one_case(vt::Rng &r, uint64_t) {
    unsigned nthreads = 2 + static_cast<unsigned>(r.below(4));
    int nm = 1 + static_cast<int>(r.below(3));
    constexpr int S = 3;
    std::vector<std::unique_ptr<M>> ms;
    for (int i = 0; i < nm; ++i) {
        switch (r.below(3)) {
            case 0: ms.push_back(std::make_unique<M>(std::in_place, i, 100L)); break;
            case 1: ms.push_back(std::make_unique<M>(Val(i, 100))); break;
            default: { Val const v(i, 100); ms.push_back(std::make_unique<M>(v)); }
        }
    }
    std::string text = vt::fmt("mutexes=%d ", nm);
    std::vector<std::vector<POp>> prog(nthreads);
    for (unsigned t = 0; t < nthreads; ++t) {
        unsigned n = 2 + static_cast<unsigned>(r.below(8));
        text += vt::fmt("t%u:", t);
        for (unsigned i = 0; i < n; ++i) {
            POp o;
            static int const kinds[] = {0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7};
            o.kind = kinds[r.below(15)];
            o.m = static_cast<int>(r.below(static_cast<uint64_t>(nm)));
            o.s = static_cast<int>(r.below(S));
            o.s2 = static_cast<int>(r.below(S));
            o.sh = Shared && r.chance(60);
            text += vt::fmt(" %d.m%d.s%d%d%s", o.kind, o.m, o.s, o.s2, o.sh ? "r" : "");
            prog[t].push_back(o);
        }
        text += "; ";
    }
    sched::Config cfg;
    cfg.seed = r.u64();
    unsigned strat = static_cast<unsigned>(r.below(4));
    if (strat == 0) cfg.pct_depth = static_cast<int>(r.below(5));
    else cfg.switch_pct = strat == 1 ? 10 : strat == 2 ? 35 : 75;
    cfg.mem_pct = r.chance(50) ? 10 : 0;

    std::vector<std::vector<lin::Op>> hist(static_cast<size_t>(nm));
    for (auto &h : hist) h.reserve(200);
    std::string err;
    auto note_err = [&](char const *e) { sched::Quiet q; if (err.empty()) err = e; };
    std::vector<long> increments(static_cast<size_t>(nm), 0);
    auto begin = [&](unsigned t, int m, int kind) {
        sched::Quiet q;
        lin::Op o;
        o.thread = static_cast<int>(t);
        o.kind = kind;
        o.arg = m;
        o.call = sched::now();
        hist[static_cast<size_t>(m)].push_back(o);
        return hist[static_cast<size_t>(m)].size() - 1;
    };
    auto end = [&](int m, size_t i, int res) {
        sched::Quiet q;
        auto &o = hist[static_cast<size_t>(m)][i];
        o.res = res;
        o.ret = sched::now();
    };
    using WG = std::remove_cvref_t<decltype(std::declval<M &>().lock())>;
    using RG = typename read_guard<M, Shared>::type;
    static_assert(std::is_same_v<decltype(*std::declval<WG &>()), Val &>);
    if constexpr (Shared) static_assert(std::is_same_v<decltype(*std::declval<RG &>()), Val const &> && std::is_same_v<decltype(std::declval<RG &>().operator->()), Val const *>);
    static_assert(!std::is_copy_constructible_v<WG> && !std::is_copy_assignable_v<WG> && !std::is_copy_constructible_v<RG> && !std::is_copy_assignable_v<RG>);
    static_assert(std::is_nothrow_move_constructible_v<WG> && std::is_nothrow_move_assignable_v<WG>);
    uint64_t accesses = 0, tries_failed = 0, moves = 0;

    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nthreads; ++t) {
        bodies.push_back([&, t] {
            struct Slot {
                std::optional<WG> w;
                std::optional<RG> r;
                int m = -1; // mutex whose lock travels with this slot's guard; -1: none (empty or moved from)
            };
            Slot sl[S];
            std::vector<int> held; // mutexes this thread holds in any way
            auto holds = [&](int m) { for (int x : held) if (x == m) return true; return false; };
            auto drop_held = [&](int m) { sched::Quiet q; for (size_t i = 0; i < held.size(); ++i) if (held[i] == m) { held.erase(held.begin() + static_cast<long>(i)); return; } };
            auto release = [&](Slot &s, auto &&how) { // run 'how', which releases what the slot holds
                if (s.m < 0) {
                    how();
                    return;
                }
                int m = s.m;
                int kind = s.r ? UNLOCK_SH : UNLOCK;
                auto i = begin(t, m, kind);
                how();
                end(m, i, 1);
                drop_held(m);
            };
            auto check_ref = [&](auto &g, int m) {
                auto *p = g.operator->();
                if (p != &*g) note_err("guard: operator-> and operator* disagree");
                auto *lo = reinterpret_cast<char const *>(ms[static_cast<size_t>(m)].get());
                auto *pc = reinterpret_cast<char const *>(p);
                if (pc < lo || pc >= lo + sizeof(M)) note_err("guard refers to a value outside its mutex");
                else if (p->id != m) note_err("guard refers to the value of another mutex");
            };
            auto access_w = [&](Val &v, int m) {
                long x = v.a;
                if (v.b != x) note_err("torn value seen under an exclusive guard");
                v.a = x + 1;
                sched::point();
                v.b = x + 1;
                sched::point();
                if (v.a != x + 1 || v.b != x + 1) note_err("value changed under an exclusive guard");
                sched::Quiet q;
                ++increments[static_cast<size_t>(m)];
                ++accesses;
            };
            auto access_r = [&](Val const &v) {
                long x = v.a;
                sched::point();
                if (v.b != x || v.a != x) note_err("value changed under a shared guard");
                ++accesses;
            };
            auto can_block = [&](int m) { for (int x : held) if (x >= m) return false; return true; };
            auto acquire = [&](int m, bool blocking, bool sh, auto &&store) {
                if (holds(m)) { // try_lock by the owner would be undefined for std::mutex
                    return;
                }
                if (blocking && !can_block(m)) blocking = false;
                M &mx = *ms[static_cast<size_t>(m)];
                int kind = sh ? (blocking ? LOCK_SH : TRY_SH) : (blocking ? LOCK : TRY);
                auto i = begin(t, m, kind);
                uint64_t bl = sched::my_blocks();
                if constexpr (Shared) {
                    if (sh) {
                        M const &cm = mx;
                        if (blocking) {
                            RG g = cm.lock_shared();
                            end(m, i, 1);
                            held.push_back(m);
                            check_ref(g, m);
                            store(std::move(g), true);
                        } else {
                            std::optional<RG> g = cm.try_lock_shared();
                            if (sched::my_blocks() != bl) note_err("try_lock_shared waited");
                            end(m, i, g.has_value());
                            if (!g) { ++tries_failed; return; }
                            held.push_back(m);
                            check_ref(*g, m);
                            store(std::move(*g), true);
                        }
                        return;
                    }
                }
                if (blocking) {
                    WG g = mx.lock();
                    end(m, i, 1);
                    held.push_back(m);
                    check_ref(g, m);
                    store(std::move(g), false);
                } else {
                    std::optional<WG> g = mx.try_lock();
                    if (sched::my_blocks() != bl) note_err("try_lock waited");
                    end(m, i, g.has_value());
                    if (!g) { ++tries_failed; return; }
                    held.push_back(m);
                    check_ref(*g, m);
                    store(std::move(*g), false);
                }
            };
            for (auto &o : prog[t]) {
                switch (o.kind) {
                    case 0:
                    case 1: {
                        acquire(o.m, o.kind == 0, o.sh, [&](auto &&g, bool sh) {
                            Slot &s = sl[o.s];
                            bool is_r = sh && Shared;
                            // assign over a guard of the same kind, otherwise replace
                            if constexpr (std::is_same_v<std::remove_cvref_t<decltype(g)>, WG>) {
                                if (!is_r) {
                                    if (s.w) release(s, [&] { *s.w = std::move(g); });
                                    else {
                                        release(s, [&] { s.r.reset(); });
                                        s.w.emplace(std::move(g));
                                    }
                                }
                            }
                            if constexpr (Shared && std::is_same_v<std::remove_cvref_t<decltype(g)>, RG>) {
                                if (is_r) {
                                    if (s.r) release(s, [&] { *s.r = std::move(g); });
                                    else {
                                        release(s, [&] { s.w.reset(); });
                                        s.r.emplace(std::move(g));
                                    }
                                }
                            }
                            s.m = o.m;
                        });
                        break;
                    }
                    case 2: { // move s -> s2
                        if (o.s == o.s2) break;
                        Slot &a = sl[o.s], &b = sl[o.s2];
                        if (!a.w && !a.r) break;
                        ++moves;
                        if (a.w) {
                            if (b.w) release(b, [&] { *b.w = std::move(*a.w); });
                            else {
                                release(b, [&] { b.r.reset(); });
                                b.w.emplace(std::move(*a.w));
                            }
                        } else {
                            if (b.r) release(b, [&] { *b.r = std::move(*a.r); });
                            else {
                                release(b, [&] { b.w.reset(); });
                                b.r.emplace(std::move(*a.r));
                            }
                        }
                        b.m = a.m;
                        a.m = -1;
                        break;
                    }
                    case 3: {
                        Slot &s = sl[o.s];
                        release(s, [&] { s.w.reset(); s.r.reset(); });
                        s.m = -1;
                        break;
                    }
                    case 4: {
                        Slot &a = sl[o.s], &b = sl[o.s2];
                        if (o.s == o.s2) break;
                        if (a.w && b.w) {
                            switch ((o.s + o.s2) % 3) {
                                case 0: { using std::swap; swap(*a.w, *b.w); break; }
                                case 1: swap(*a.w, *b.w); break;
                                default: std::ranges::swap(*a.w, *b.w); break;
                            }
                            std::swap(a.m, b.m);
                            ++moves;
                        } else if (a.r && b.r) {
                            switch ((o.s + o.s2) % 3) {
                                case 0: { using std::swap; swap(*a.r, *b.r); break; }
                                case 1: swap(*a.r, *b.r); break;
                                default: std::ranges::swap(*a.r, *b.r); break;
                            }
                            std::swap(a.m, b.m);
                            ++moves;
                        }
                        break;
                    }
                    case 5: {
                        Slot &s = sl[o.s];
                        if (s.m < 0) break;
                        if (s.w) {
                            check_ref(*s.w, s.m);
                            access_w(**s.w, s.m);
                        } else {
                            check_ref(*s.r, s.m);
                            access_r(**s.r);
                        }
                        break;
                    }
                    case 6:
                    case 7: { // guard lives in an inner scope
                        size_t rel = 0;
                        int m = -1;
                        try {
                            acquire(o.m, true, o.sh, [&](auto &&g, bool sh) {
                                auto inner = std::move(g);
                                (void) sh;
                                m = o.m;
                                if constexpr (std::is_const_v<std::remove_reference_t<decltype(*inner)>>) access_r(*inner);
                                else access_w(*inner, m);
                                rel = begin(t, m, std::is_const_v<std::remove_reference_t<decltype(*inner)>> ? UNLOCK_SH : UNLOCK);
                                if (o.kind == 6) throw Stop{};
                            });
                        } catch (Stop const &) {
                        }
                        if (m >= 0) {
                            end(m, rel, 1);
                            drop_held(m);
                        }
                        break;
                    }
                }
            }
            for (int i = 0; i < S; ++i) {
                Slot &s = sl[i];
                release(s, [&] { s.w.reset(); s.r.reset(); });
                s.m = -1;
            }
        });
    }
    auto res = sched::run(cfg, bodies, [&](std::vector<sched::ThreadInfo> const &) { return false; });
    vt::count("scheduling_points", res.steps);
    vt::count("context_switches", res.switches);
    vt::count("blocked_waits", res.blocks);
    vt::count("guarded_accesses", accesses);
    vt::count("failed_try_locks", tries_failed);
    vt::count("guard_moves", moves);
    vt::distinct(vt::mix(res.trace_hash, vt::hash_str(text)));
    if (vt::want_sample("lock history") && hist[0].size() > 6) vt::sample("lock history", text + " => " + show(hist[0]));
    std::string all;
    for (auto &h : hist) all += show(h);
    if (res.outcome == sched::Outcome::step_limit || res.outcome == sched::Outcome::foreign_block) {
        printf("@INCONCLUSIVE controlled scheduling not possible (outcome %d)\n", static_cast<int>(res.outcome));
        fflush(stdout);
        _exit(vt::finish() ? 10 : 0);
    }
    if (!err.empty()) vt::fail_s("guard", err + " | " + text + all);
    if (res.outcome == sched::Outcome::stuck) {
        vt::fail_s("stuck", "threads wait for a lock that no live guard holds | " + text + all);
        vt::finish();
        _exit(10);
    }
    if (res.misuse) vt::fail_s("unlock-not-held", text + all);
    for (int i = 0; i < nm; ++i) {
        auto &h = hist[static_cast<size_t>(i)];
        if (h.size() <= 62) {
            lin::Checker<LockModel> ck(h);
            if (!ck.check({})) vt::fail_s("not-a-lock", text + show(h));
            if (!ck.exhausted) vt::count("histories_linearized");
        }
        // the lock must be free now
        auto g = ms[static_cast<size_t>(i)]->try_lock();
        if (!g) vt::fail_s("leaked-lock", text + show(h));
        else {
            Val &v = **g;
            if (v.a != 100 + increments[static_cast<size_t>(i)] || v.b != v.a) vt::fail_s("lost-update", text + show(h));
        }
    }
}

static void vt_main() {
    if (getenv("MUTEX_SHARED")) {
        vt::run("shared-mutex-sched", 20000, [](vt::Rng &r, uint64_t i) { one_case<dtl::shared_mutex<Val>, true>(r, i); });
        vt::run("shared-mutex-custom-sched", 6000, [](vt::Rng &r, uint64_t i) { one_case<dtl::shared_mutex<Val, TicketSharedMutex>, true>(r, i); });
    } else {
        vt::run("mutex-sched", 20000, [](vt::Rng &r, uint64_t i) { one_case<dtl::mutex<Val>, false>(r, i); });
        vt::run("mutex-custom-sched", 6000, [](vt::Rng &r, uint64_t i) { one_case<dtl::mutex<Val, TicketMutex>, false>(r, i); });
    }
}
VT_MAIN
