// C14: DICE_DEFER / _TO_FAIL / _TO_SUCCESS and the guard factories.  Random programs over scopes, guards, try/catch, throw, return, break,
// objects whose destructor runs a program, and actions that are programs themselves are executed twice: for real (guards are locals of the
// running frame) and by an interpreter that knows nothing but the rule; the traces must be identical.
#include "ledger.hpp"
#include "vt.hpp"
#include <dice/template-library/defer.hpp>
#include <memory>
#include <optional>

namespace dtl = dice::template_library;

struct Ex { int code; };
struct Ex2 : std::runtime_error {
    int code;
    explicit Ex2(int c) : std::runtime_error("x"), code(c) {}
};

enum Kind { DEFER, DEFER_FAIL, DEFER_OK, THREE, FACTORY, SCOPE, LOOP, TRY, THROW, RETURN, BREAK, DTOR, SET, LOG, CALL };
enum Out { NORMAL, RET, BRK, THROWN };
struct Stmt;
using Prog = std::vector<Stmt>;
struct Stmt {
    Kind k;
    int a = 0, b = 0;
    bool rethrow = false;
    Prog body, handler;
};
static std::string show(Prog const &p) {
    std::string s;
    static char const *nm[] = {"defer", "fail", "ok", "three", "factory", "scope", "loop", "try", "throw", "return", "break", "dtor", "set", "log", "call"};
    for (auto &x : p) {
        s += vt::fmt("%s%d", nm[x.k], x.a);
        if (!x.body.empty()) s += "{" + show(x.body) + "}";
        if (!x.handler.empty() || x.rethrow) s += (x.rethrow ? "catch-rethrow{" : "catch{") + show(x.handler) + "}";
        s += " ";
    }
    return s;
}
static int next_id;
static Prog gen(vt::Rng &r, int depth, int &budget) {
    Prog p;
    int n = 1 + static_cast<int>(r.below(depth > 4 ? 2 : 5));
    for (int i = 0; i < n && budget > 0; ++i) {
        Stmt s;
        --budget;
        s.a = next_id++;
        unsigned w = static_cast<unsigned>(r.below(100));
        if (w < 36) {
            s.k = w < 12 ? DEFER : w < 24 ? DEFER_FAIL : DEFER_OK;
            if (depth < 5 && r.chance(25)) s.body = gen(r, depth + 2, budget);
        } else if (w < 40) {
            s.k = THREE;
            s.b = static_cast<int>(r.below(6));
        } else if (w < 46) {
            s.k = FACTORY;
            s.b = static_cast<int>(r.below(12));
        } else if (w < 54) s.k = SCOPE;
        else if (w < 59) s.k = LOOP, s.b = 1 + static_cast<int>(r.below(3));
        else if (w < 70) {
            s.k = TRY;
            s.rethrow = r.chance(25);
            if (depth < 6) s.handler = gen(r, depth + 1, budget);
        } else if (w < 77) s.k = THROW, s.b = static_cast<int>(r.below(2));
        else if (w < 80) s.k = RETURN;
        else if (w < 83) s.k = BREAK;
        else if (w < 89) s.k = DTOR;
        else if (w < 94) s.k = SET;
        else if (w < 97) s.k = LOG;
        else s.k = CALL;
        if ((s.k == SCOPE || s.k == LOOP || s.k == TRY || s.k == DTOR || s.k == CALL)) {
            if (depth > 6) continue;
            s.body = gen(r, depth + 1, budget);
        }
        p.push_back(std::move(s));
    }
    return p;
}

using Trace = std::vector<long>;
static void rec(Trace &t, int what, int id, int v) { t.push_back(what * 1000000000l + id * 10000l + v); }

// ---- the rule -----------------------------------------------------------------------------------------------------------------------
struct Model {
    Trace t;
    int var = 0;
    int code = 0; // of the exception in flight when THROWN
    uint64_t steps = 0;
    bool over() { return ++steps > 4000; }
    // an action: log, then its program; returns THROWN when that ends with an exception
    Out action(Stmt const &s) {
        rec(t, 1, s.a, var);
        if (s.body.empty()) return NORMAL;
        return exec(s.body, 0) == THROWN ? THROWN : NORMAL;
    }
    Out guarded(Stmt const &s, Kind k, Out o) {
        bool run = k == DEFER || (k == DEFER_FAIL) == (o == THROWN);
        if (!run) return o;
        int keep = code;
        Out a = action(s);
        if (a == THROWN && k == DEFER_OK) return THROWN; // its exception leaves the scope
        if (a == THROWN) rec(t, 2, s.a, code);            // the others swallow it (actions are noexcept)
        code = keep;
        return o;
    }
    Out exec(Prog const &p, size_t i) {
        if (i == p.size() || over()) return NORMAL;
        Stmt const &s = p[i];
        switch (s.k) {
            case DEFER:
            case DEFER_FAIL:
            case DEFER_OK: return guarded(s, s.k, exec(p, i + 1));
            case THREE: {
                static constexpr Kind perm[6][3] = {{DEFER, DEFER_FAIL, DEFER_OK}, {DEFER, DEFER_OK, DEFER_FAIL}, {DEFER_FAIL, DEFER, DEFER_OK}, {DEFER_FAIL, DEFER_OK, DEFER}, {DEFER_OK, DEFER, DEFER_FAIL}, {DEFER_OK, DEFER_FAIL, DEFER}};
                Out o = exec(p, i + 1);
                for (int k = 2; k >= 0; --k) o = guarded(s, perm[s.b][k], (rec(t, 9, s.a, k), o));
                return o;
            }
            case FACTORY: {
                Out o = exec(p, i + 1);
                return guarded(s, static_cast<Kind>(s.b % 3), o);
            }
            case SCOPE: {
                Out o = exec(s.body, 0);
                return o == NORMAL ? exec(p, i + 1) : o;
            }
            case LOOP: {
                for (int k = 0; k < s.b; ++k) {
                    rec(t, 3, s.a, k);
                    Out o = exec(s.body, 0);
                    if (o == BRK) break;
                    if (o != NORMAL) return o;
                }
                return exec(p, i + 1);
            }
            case TRY: {
                Out o = exec(s.body, 0);
                if (o == THROWN) {
                    int c = code;
                    rec(t, 4, s.a, c);
                    o = exec(s.handler, 0);
                    if (o == NORMAL && s.rethrow) {
                        code = c;
                        o = THROWN;
                    }
                }
                return o == NORMAL ? exec(p, i + 1) : o;
            }
            case THROW: code = s.a % 10000; return THROWN;
            case RETURN: return RET;
            case BREAK: return BRK;
            case DTOR: {
                Out o = exec(p, i + 1);
                int keep = code;
                rec(t, 5, s.a, var);
                if (exec(s.body, 0) == THROWN) rec(t, 6, s.a, code);
                code = keep;
                return o;
            }
            case SET: var = s.a % 10000; return exec(p, i + 1);
            case LOG: rec(t, 7, s.a, var); return exec(p, i + 1);
            case CALL: {
                Out o = exec(s.body, 0); // a function: break/return end only it
                if (o == THROWN) return o;
                rec(t, 8, s.a, 0);
                return exec(p, i + 1);
            }
        }
        return NORMAL;
    }
};

// ---- the real thing -----------------------------------------------------------------------------------------------------------------
struct Real {
    Trace t;
    int var = 0;
    uint64_t steps = 0, guards = 0, during_unwinding = 0;
    bool over() { return ++steps > 4000; }
    static int code_now() {
        try {
            throw;
        } catch (Ex const &e) {
            return e.code;
        } catch (Ex2 const &e) {
            return e.code;
        }
    }
    void action_nothrow(Stmt const &s) noexcept {
        try {
            action(s);
        } catch (...) {
            rec(t, 2, s.a, code_now());
        }
    }
    static void stale(int now) { if (now != 1) vt::fail("capture-stale", "the action saw the value its capture had at registration"); }
    void action(Stmt const &s) {
        rec(t, 1, s.a, var);
        if (std::uncaught_exceptions()) ++during_unwinding;
        if (!s.body.empty()) (void) exec(s.body, 0);
    }
    struct Dtor {
        Real *r;
        Stmt const *s;
        ~Dtor() {
            rec(r->t, 5, s->a, r->var);
            try {
                (void) r->exec(s->body, 0);
            } catch (...) {
                rec(r->t, 6, s->a, code_now());
            }
        }
    };
    // functors for the factories: copyable, move-only, function pointer-ish
    struct CopyF {
        Real *r;
        Stmt const *s;
        bool ok;
        ledger::Obj<14, 0> o{1};
        void operator()() {
            if (o.get() != 1) vt::fail("functor", "moved-out functor invoked");
            if (ok) r->action(*s);
            else r->action_nothrow(*s);
        }
    };
    static void taken(CopyF &f) {
        if (f.o.get() != 1) vt::fail("functor", "an lvalue functor was moved from");
        f.o = 7;
    }
    struct MoveF : CopyF {
        MoveF(CopyF c) : CopyF(std::move(c)) {}
        MoveF(MoveF const &) = delete;
        MoveF(MoveF &&) = default;
    };
    Out exec(Prog const &p, size_t i) {
        if (i == p.size() || over()) return NORMAL;
        Stmt const &s = p[i];
        switch (s.k) {
            case DEFER: {
                ++guards;
                int now = 0;
                DICE_DEFER { stale(now); action_nothrow(s); };
                now = 1;
                return exec(p, i + 1);
            }
            case DEFER_FAIL: {
                ++guards;
                int now = 0;
                DICE_DEFER_TO_FAIL { stale(now); action_nothrow(s); };
                now = 1;
                return exec(p, i + 1);
            }
            case DEFER_OK: {
                ++guards;
                int now = 0;
                DICE_DEFER_TO_SUCCESS { stale(now); action(s); };
                now = 1;
                return exec(p, i + 1);
            }
            case THREE: {
                guards += 3;
#define A DICE_DEFER { action_nothrow(s); };
#define F DICE_DEFER_TO_FAIL { action_nothrow(s); };
#define S DICE_DEFER_TO_SUCCESS { action(s); };
#define M(k) DICE_DEFER { rec(t, 9, s.a, k); };
                switch (s.b) {
                    case 0: {
                        A
                        M(0)
                        F
                        M(1)
                        S
                        M(2)
                        return exec(p, i + 1);
                    }
                    case 1: {
                        A
                        M(0)
                        S
                        M(1)
                        F
                        M(2)
                        return exec(p, i + 1);
                    }
                    case 2: {
                        F
                        M(0)
                        A
                        M(1)
                        S
                        M(2)
                        return exec(p, i + 1);
                    }
                    case 3: {
                        F
                        M(0)
                        S
                        M(1)
                        A
                        M(2)
                        return exec(p, i + 1);
                    }
                    case 4: {
                        S
                        M(0)
                        A
                        M(1)
                        F
                        M(2)
                        return exec(p, i + 1);
                    }
                    default: {
                        S
                        M(0)
                        F
                        M(1)
                        A
                        M(2)
                        return exec(p, i + 1);
                    }
                }
#undef A
#undef F
#undef S
#undef M
            }
            case FACTORY: {
                ++guards;
                CopyF f{this, &s, s.b % 3 == 2};
                switch (s.b) {
                    case 0: {
                        auto g = dtl::make_scope_exit_guard(f);
                        taken(f); // the guard has its own copy
                        return exec(p, i + 1);
                    }
                    case 1: {
                        auto g = dtl::make_scope_fail_guard(f);
                        taken(f);
                        return exec(p, i + 1);
                    }
                    case 2: {
                        auto const g = dtl::make_scope_success_guard(std::as_const(f));
                        taken(f);
                        return exec(p, i + 1);
                    }
                    case 3: {
                        auto g = dtl::make_scope_exit_guard(MoveF(f));
                        return exec(p, i + 1);
                    }
                    case 4: {
                        dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnFail, MoveF> g(MoveF{f});
                        return exec(p, i + 1);
                    }
                    case 5: {
                        auto g = dtl::make_scope_success_guard(MoveF(f));
                        return exec(p, i + 1);
                    }
                    case 6: {
                        dtl::ScopeExitGuard<dtl::ScopeExitPolicy::Always, CopyF> idle;
                        dtl::ScopeExitGuard<dtl::ScopeExitPolicy::Always, CopyF> g(f);
                        taken(f);
                        return exec(p, i + 1);
                    }
                    case 7: {
                        dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnFail, CopyF> idle;
                        auto g = std::make_unique<dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnFail, CopyF>>(f);
                        return exec(p, i + 1);
                    }
                    case 9: {
                        MoveF mf{f};
                        auto const g = dtl::make_scope_exit_guard(std::move(mf));
                        return exec(p, i + 1);
                    }
                    case 10: {
                        auto g = dtl::make_scope_fail_guard(MoveF(f));
                        return exec(p, i + 1);
                    }
                    case 11: {
                        auto own = std::make_unique<CopyF>(f);
                        auto g = dtl::make_scope_success_guard([own = std::move(own)] { (*own)(); });
                        return exec(p, i + 1);
                    }
                    default: {
                        dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnSuccess, CopyF> idle;
                        dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnSuccess, CopyF> g(std::as_const(f));
                        taken(f);
                        return exec(p, i + 1);
                    }
                }
            }
            case SCOPE: {
                {
                    Out o = exec(s.body, 0);
                    if (o != NORMAL) return o;
                }
                return exec(p, i + 1);
            }
            case LOOP: {
                for (int k = 0; k < s.b; ++k) {
                    rec(t, 3, s.a, k);
                    Out o = exec(s.body, 0);
                    if (o == BRK) break;
                    if (o != NORMAL) return o;
                }
                return exec(p, i + 1);
            }
            case TRY: {
                Out o;
                try {
                    o = exec(s.body, 0);
                } catch (...) {
                    rec(t, 4, s.a, code_now());
                    o = exec(s.handler, 0);
                    if (o == NORMAL && s.rethrow) throw;
                }
                return o == NORMAL ? exec(p, i + 1) : o;
            }
            case THROW:
                if (s.b) throw Ex2(s.a % 10000);
                throw Ex{s.a % 10000};
            case RETURN: return RET;
            case BREAK: return BRK;
            case DTOR: {
                Dtor d{this, &s};
                return exec(p, i + 1);
            }
            case SET: var = s.a % 10000; return exec(p, i + 1);
            case LOG: rec(t, 7, s.a, var); return exec(p, i + 1);
            case CALL: {
                (void) [&]() -> Out { return exec(s.body, 0); }();
                rec(t, 8, s.a, 0);
                return exec(p, i + 1);
            }
        }
        return NORMAL;
    }
};

static std::string show(Trace const &t, size_t from) {
    std::string s;
    static char const *w[] = {"?", "action", "swallowed", "iter", "catch", "dtor", "dtor-swallowed", "log", "returned", "mark"};
    for (size_t i = from > 3 ? from - 3 : 0; i < t.size() && i < from + 6; ++i) s += vt::fmt("%s%ld=%ld ", w[t[i] / 1000000000], t[i] / 10000 % 100000, t[i] % 10000);
    return s;
}

static void program(vt::Rng &r, uint64_t) {
    next_id = 1;
    int budget = 10 + static_cast<int>(r.below(60));
    Prog p;
    while (budget > 0) {
        Prog q = gen(r, 0, budget);
        for (auto &s : q) p.push_back(std::move(s));
    }
    Model m;
    Out mo = m.exec(p, 0);
    if (m.steps > 3500) return;
    Real x;
    Out xo;
    int code = -1;
    try {
        xo = x.exec(p, 0);
    } catch (...) {
        xo = THROWN;
        code = Real::code_now();
    }
    vt::count("guards_registered", x.guards);
    vt::count("actions_during_unwinding", x.during_unwinding);
    vt::count("trace_events", x.t.size());
    size_t i = 0;
    while (i < x.t.size() && i < m.t.size() && x.t[i] == m.t[i]) ++i;
    if (i < x.t.size() || i < m.t.size()) {
        bool act = i < m.t.size() && m.t[i] / 1000000000 == 1;
        vt::fail_s(act ? "action-missing-or-misplaced" : "wrong-trace", "event " + std::to_string(i) + ": got " + show(x.t, i) + " expected " + show(m.t, i) + " | program " + show(p));
    } else if (xo != mo || (mo == THROWN && code != m.code))
        vt::fail_s("wrong-exit", vt::fmt("left with %d/%d, expected %d/%d | program ", xo, code, mo, m.code) + show(p));
    vt::count(mo == THROWN ? "programs_left_by_exception" : "programs_left_normally");
    for (auto e : m.t)
        if (e / 1000000000 == 1) vt::count("actions_run");
    ledger::expect_live(0, "program over");
    ledger::reset();
    vt::distinct(vt::hash_str(show(p)));
    if (m.t.size() > 10 && vt::want_sample("program")) vt::sample("program", show(p) + " => " + show(x.t, 3));
}

// ---- registering an action whose copy or move throws: the exception reaches the caller, nothing is registered, nothing is lost ---------
static int boom_ran;
struct BoomF {
    ledger::Obj<15, ledger::throwing_copy | ledger::throwing_move> o;
    explicit BoomF(int x) : o(x) {}
    void operator()() const {
        if (o.get() != 5) vt::fail("functor", "the action ran on a moved-out or corrupt functor");
        ++boom_ran;
    }
};
template<dtl::ScopeExitPolicy P>
static void registration_one(vt::Rng &r, auto make, bool leave_by_exception) {
    long ops = static_cast<long>(r.below(5)) - 1;
    int way = static_cast<int>(r.below(4));
    boom_ran = 0;
    bool registered = false, boomed = false, left = false;
    {
        BoomF f{5};
        int before = f.o.get();
        ledger::arm(ops);
        try {
            auto go = [&](auto &&) {
                registered = true;
                ledger::disarm();
                if (boom_ran) vt::fail("action-early", "the action ran while the guard was still alive");
                if (leave_by_exception) throw Ex{77};
            };
            switch (way) {
                case 0: { auto g = make(f); go(g); break; }
                case 1: { auto g = make(std::as_const(f)); go(g); break; }
                case 2: { auto g = make(std::move(f)); go(g); break; }
                default: { dtl::ScopeExitGuard<P, BoomF> g(f); go(g); }
            }
        } catch (ledger::Boom const &) {
            boomed = true;
        } catch (Ex const &) {
            left = true;
        }
        ledger::disarm();
        if (way != 2 && f.o.get() != before) vt::fail("functor", "registering an lvalue changed it");
    }
    if (registered == boomed) vt::fail_s("registration", vt::fmt("registered %d, copy threw %d", registered, boomed));
    if (registered && left != leave_by_exception) vt::fail("wrong-exit", "the exception leaving the scope did not arrive");
    int want = registered && (P == dtl::ScopeExitPolicy::Always || (P == dtl::ScopeExitPolicy::OnFail) == leave_by_exception);
    if (boom_ran != want) vt::fail_s(registered ? "action-missing-or-misplaced" : "action-of-failed-registration", vt::fmt("ran %d times, expected %d (way %d)", boom_ran, want, way));
    ledger::expect_live(0, "registration over");
    ledger::reset();
    vt::count(boomed ? "registrations_failed" : "registrations_made");
}
static void registration(vt::Rng &r, uint64_t) {
    bool ex = r.chance(50);
    switch (r.below(3)) {
        case 0: registration_one<dtl::ScopeExitPolicy::Always>(r, [](auto &&f) { return dtl::make_scope_exit_guard(std::forward<decltype(f)>(f)); }, ex); break;
        case 1: registration_one<dtl::ScopeExitPolicy::OnFail>(r, [](auto &&f) { return dtl::make_scope_fail_guard(std::forward<decltype(f)>(f)); }, ex); break;
        default: registration_one<dtl::ScopeExitPolicy::OnSuccess>(r, [](auto &&f) { return dtl::make_scope_success_guard(std::forward<decltype(f)>(f)); }, ex);
    }
}

static void vt_main() {
    vt::run("registration", 4000, registration);
    vt::run("programs", 60000, program);
}
VT_MAIN
