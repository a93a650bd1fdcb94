// C07: random operation sequences on variant2<T, U> against an (alternative, value) model with an object ledger and injected
// exceptions; every observer is compared with the model (and with std::variant for the value semantics of construction) after every step.
#include "ledger.hpp"
#include <any>
#include <array>
#include <cmath>
#include <dice/template-library/variant2.hpp>
#include <format>
#include <memory>
#include <optional>
#include <string>

namespace dtl = dice::template_library;
using namespace ledger;

template<int Tag, unsigned F>
struct std::hash<Obj<Tag, F>> {
    size_t operator()(Obj<Tag, F> const &o) const noexcept { return std::hash<int>{}(o.v); }
};
template<int Tag, unsigned F>
struct std::formatter<Obj<Tag, F>> : std::formatter<int> {
    auto format(Obj<Tag, F> const &o, auto &ctx) const { return std::formatter<int>::format(o.v, ctx); }
};

// non-trivial construction/destruction but trivial assignment
template<int Tag>
struct TrivAssign {
    int v;
    TrivAssign(int x = 0) : v(x) { born(this, Tag); }
    TrivAssign(TrivAssign const &o) : v(o.v) { used(&o, Tag, "copy source"); born(this, Tag); }
    TrivAssign &operator=(TrivAssign const &) = default;
    ~TrivAssign() { died(this, Tag); }
    friend bool operator==(TrivAssign const &a, TrivAssign const &b) noexcept { return a.v == b.v; }
    friend auto operator<=>(TrivAssign const &a, TrivAssign const &b) noexcept { return a.v <=> b.v; }
};
template<int Tag>
struct std::hash<TrivAssign<Tag>> {
    size_t operator()(TrivAssign<Tag> const &o) const noexcept { return std::hash<int>{}(o.v); }
};
template<int Tag>
struct std::formatter<TrivAssign<Tag>> : std::formatter<int> {
    auto format(TrivAssign<Tag> const &o, auto &ctx) const { return std::formatter<int>::format(o.v, ctx); }
};
// trivially copyable/movable construction and destruction but a user-provided assignment that counts
struct CountAssign {
    int v;
    static inline uint64_t assigns = 0;
    CountAssign(int x = 0) : v(x) {}
    CountAssign(CountAssign const &) = default;
    CountAssign &operator=(CountAssign const &o) { v = o.v; ++assigns; return *this; }
    friend bool operator==(CountAssign const &a, CountAssign const &b) noexcept { return a.v == b.v; }
    friend auto operator<=>(CountAssign const &a, CountAssign const &b) noexcept { return a.v <=> b.v; }
};
template<>
struct std::hash<CountAssign> {
    size_t operator()(CountAssign const &o) const noexcept { return std::hash<int>{}(o.v); }
};
template<>
struct std::formatter<CountAssign> : std::formatter<int> {
    auto format(CountAssign const &o, auto &ctx) const { return std::formatter<int>::format(o.v, ctx); }
};

// comparison and hash may throw
struct Touchy {
    int v;
    static inline bool bomb = false;
    static void tick() { if (bomb) throw Boom{}; }
    friend bool operator==(Touchy const &a, Touchy const &b) { tick(); return a.v == b.v; }
    friend auto operator<=>(Touchy const &a, Touchy const &b) { tick(); return a.v <=> b.v; }
};
template<>
struct std::hash<Touchy> {
    size_t operator()(Touchy const &o) const { Touchy::tick(); return std::hash<int>{}(o.v); }
};

constexpr int unknown = -2000000;
template<class T>
struct Alt { // int, double
    static constexpr bool tracked = false, can_copy = true, can_throw = false;
    static T make(int x) { return static_cast<T>(x); }
    static int val(T const &t) { return static_cast<int>(t); }
    static int after_move(int v) { return v; }
};
template<int Tag, unsigned F>
struct Alt<Obj<Tag, F>> {
    static constexpr bool tracked = true, can_copy = !(F & no_copy), can_throw = (F & (7 | throwing_assign)) != 0;
    static Obj<Tag, F> make(int x) { return Obj<Tag, F>(x); }
    static int val(Obj<Tag, F> const &t) { return t.get(); }
    static int after_move(int v) { return (F & no_move_decl) ? v : moved_out; }
};
template<int Tag>
struct Alt<TrivAssign<Tag>> {
    static constexpr bool tracked = true, can_copy = true, can_throw = false;
    static TrivAssign<Tag> make(int x) { return TrivAssign<Tag>(x); }
    static int val(TrivAssign<Tag> const &t) { used(&t, Tag, "read"); return t.v; }
    static int after_move(int v) { return v; }
};
template<>
struct Alt<CountAssign> {
    static constexpr bool tracked = false, can_copy = true, can_throw = false;
    static CountAssign make(int x) { return CountAssign(x); }
    static int val(CountAssign const &t) { return t.v; }
    static int after_move(int v) { return v; }
};
template<>
struct Alt<std::string> {
    static constexpr bool tracked = false, can_copy = true, can_throw = false;
    static std::string make(int x) { return "a-string-longer-than-the-inline-buffer-" + std::to_string(x); }
    static int val(std::string const &t) {
        auto p = t.rfind("buffer-");
        return p == std::string::npos ? unknown : atoi(t.c_str() + p + 7);
    }
    static int after_move(int) { return unknown; }
};

struct M {
    int idx = 0; // 0, 1, 2 = valueless
    int val = 0;
};

template<class T, class U>
struct Prog {
    using V = dtl::variant2<T, U>;
    static constexpr bool copyable = Alt<T>::can_copy && Alt<U>::can_copy;
    static constexpr int N = 4;
    // std::variant copies before it destroys the old alternative when copying may throw and moving may not
    template<class X>
    static constexpr bool copies_first = !std::is_nothrow_copy_constructible_v<X> && std::is_nothrow_move_constructible_v<X>;
    struct Slot {
        alignas(V) unsigned char mem[sizeof(V)];
        bool alive = false;
        V &v() { return *std::launder(reinterpret_cast<V *>(mem)); }
        M m;
    };
    std::array<Slot, N> s;
    std::string log;
    vt::Rng &r;
    int next = 1;
    explicit Prog(vt::Rng &rr) : r(rr) {}

    static M observe(V const &v) {
        M m;
        size_t i = v.index();
        m.idx = i == std::variant_npos ? 2 : static_cast<int>(i);
        m.val = m.idx == 0 ? Alt<T>::val(*dtl::get_if<0>(&v)) : m.idx == 1 ? Alt<U>::val(*dtl::get_if<1>(&v)) : 0;
        return m;
    }
    size_t model_live() const {
        size_t n = 0;
        for (auto &x : s)
            if (x.alive && ((x.m.idx == 0 && Alt<T>::tracked) || (x.m.idx == 1 && Alt<U>::tracked))) ++n;
        return n;
    }
    void bad(char const *key, std::string msg) { vt::fail_s(key, msg + " | " + log); }

    template<class F> static bool throws_bva(F &&f) {
        try {
            f();
        } catch (std::bad_variant_access const &) {
            return true;
        }
        return false;
    }

    void check_slot(int k) {
        V &v = s[static_cast<size_t>(k)].v();
        V const &c = v;
        M const &m = s[static_cast<size_t>(k)].m;
        size_t want = m.idx == 2 ? std::variant_npos : static_cast<size_t>(m.idx);
        if (v.index() != want || v.valueless_by_exception() != (m.idx == 2)) return bad("index", vt::fmt("slot %d: index %zu, expected %d", k, v.index(), m.idx));
        if (dtl::holds_alternative<T>(c) != (m.idx == 0) || dtl::holds_alternative<U>(c) != (m.idx == 1) || dtl::holds_alternative<void *>(c)) bad("holds", "holds_alternative");
        if ((dtl::get_if<T>(&v) != nullptr) != (m.idx == 0) || (dtl::get_if<U>(&v) != nullptr) != (m.idx == 1) || (dtl::get_if<0>(&c) != nullptr) != (m.idx == 0)
            || (dtl::get_if<1>(&c) != nullptr) != (m.idx == 1) || dtl::get_if<1>(static_cast<V *>(nullptr)) || dtl::get_if<T>(static_cast<V *>(nullptr))
            || dtl::get_if<0>(static_cast<V const *>(nullptr)) || dtl::get_if<1>(static_cast<V const *>(nullptr)) || dtl::get_if<T>(static_cast<V const *>(nullptr))
            || dtl::get_if<U>(static_cast<V *>(nullptr)))
            bad("get_if", "get_if by type / of a null pointer");
        if ((dtl::get_if<0>(&v) != nullptr) != (m.idx == 0) || (dtl::get_if<1>(&v) != nullptr) != (m.idx == 1) || (dtl::get_if<T>(&c) != nullptr) != (m.idx == 0)
            || (dtl::get_if<U>(&c) != nullptr) != (m.idx == 1) || dtl::get_if<0>(static_cast<V *>(nullptr)) || dtl::get_if<U>(static_cast<V const *>(nullptr)))
            bad("get_if", "get_if");
        if (throws_bva([&] { (void) dtl::get<0>(v); }) != (m.idx != 0) || throws_bva([&] { (void) dtl::get<1>(c); }) != (m.idx != 1)
            || throws_bva([&] { (void) dtl::get<T>(c); }) != (m.idx != 0) || throws_bva([&] { (void) dtl::get<U>(v); }) != (m.idx != 1)
            || throws_bva([&] { (void) dtl::get<0>(std::move(v)); }) != (m.idx != 0) || throws_bva([&] { (void) dtl::get<U>(std::move(c)); }) != (m.idx != 1))
            bad("get", "get throws exactly on the wrong alternative");
        int which = -1;
        void const *addr = nullptr;
        auto vis = [&](auto &&x) -> int {
            using X = std::remove_cvref_t<decltype(x)>;
            which = std::is_same_v<X, T> ? 0 : 1;
            addr = &x;
            return Alt<X>::val(x);
        };
        int got = 0;
        bool t = throws_bva([&] { got = dtl::visit(vis, v); });
        if (t != (m.idx == 2)) bad("visit", "visit throws exactly when valueless");
        if (m.idx != 2) {
            void const *self = m.idx == 0 ? static_cast<void const *>(&dtl::get<0>(v)) : static_cast<void const *>(&dtl::get<1>(v));
            void const *self2 = m.idx == 0 ? static_cast<void const *>(dtl::get_if<T>(&c)) : static_cast<void const *>(dtl::get_if<U>(&c));
            if (which != m.idx || addr != self || self != self2 || self < static_cast<void *>(&v) || self >= static_cast<void *>(&v + 1)) bad("visit", "visit/get refer to different objects");
            if (m.val != unknown && got != m.val) bad("value", vt::fmt("slot %d holds %d, expected %d", k, got, m.val));
            which = -1;
            if (dtl::visit(vis, c) != got || which != m.idx || dtl::visit(vis, std::move(c)) != got || dtl::visit(vis, std::move(v)) != got) bad("visit", "visit through const/rvalue");
            std::string want_s = dtl::visit([](auto const &x) { return std::format("variant({})", x); }, c);
            if (std::format("{}", c) != want_s) bad("format", std::format("{}", c) + " expected " + want_s);
        } else if (std::format("{}", c) != "variant(valueless by exception)") bad("format", std::format("{}", c));
        (void) std::hash<V>{}(c);
    }
    void check_pairs(int a, int b) {
        V const &x = s[static_cast<size_t>(a)].v(), &y = s[static_cast<size_t>(b)].v();
        M ma = observe(x), mb = observe(y);
        // rank like std::variant: valueless first, then by alternative, then by value
        bool eq;
        std::partial_ordering o = std::partial_ordering::equivalent;
        if (ma.idx != mb.idx) {
            eq = false;
            int ra = ma.idx == 2 ? -1 : ma.idx, rb = mb.idx == 2 ? -1 : mb.idx;
            o = ra <=> rb;
        } else if (ma.idx == 2) eq = true;
        else if (ma.idx == 0) eq = *dtl::get_if<0>(&x) == *dtl::get_if<0>(&y), o = *dtl::get_if<0>(&x) <=> *dtl::get_if<0>(&y);
        else eq = *dtl::get_if<1>(&x) == *dtl::get_if<1>(&y), o = *dtl::get_if<1>(&x) <=> *dtl::get_if<1>(&y);
        if ((x == y) != eq || (x != y) == eq) bad("equality", vt::fmt("slots %d,%d", a, b));
        std::partial_ordering c = x <=> y;
        if (c != o || (x < y) != (o < 0) || (x > y) != (o > 0) || (x <= y) != (o <= 0) || (x >= y) != (o >= 0)) bad("ordering", vt::fmt("slots %d,%d: %d/%d vs %d/%d", a, b, ma.idx, ma.val, mb.idx, mb.val));
        if (eq && std::hash<V>{}(x) != std::hash<V>{}(y)) bad("hash", "equal variants hash differently");
    }

    // run op; on Boom the affected slots must be valueless or keep their old value
    template<class F>
    bool guarded(F &&f, std::initializer_list<int> touched, bool inject, bool keeps = false) {
        if (inject) arm(static_cast<long>(r.below(5)));
        try {
            f();
            disarm();
            return true;
        } catch (Boom const &) {
            disarm();
            vt::count("exceptions_from_elements");
            for (int k : touched) {
                Slot &x = s[static_cast<size_t>(k)];
                if (!x.alive) continue;
                M now = observe(x.v());
                if (now.idx != 2 && !(now.idx == x.m.idx && (now.val == x.m.val || x.m.val == unknown)))
                    bad("after-throw", vt::fmt("slot %d: holds %d/%d after the exception, before: %d/%d", k, now.idx, now.val, x.m.idx, x.m.val));
                if (keeps && now.idx != x.m.idx) bad("lost-on-throw", vt::fmt("slot %d: the copy threw, std::variant would have kept the old alternative", k));
                else if (keeps) vt::count("kept_on_throw");
                if (now.idx == 2 && x.m.idx != 2) vt::count("became_valueless");
                x.m = now;
            }
            log += "!throw ";
            return false;
        }
    }
    void kill(int k) {
        Slot &x = s[static_cast<size_t>(k)];
        if (x.alive) {
            x.v().~V();
            x.alive = false;
        }
        vt::scrub(x.mem, sizeof x.mem);
    }

    void step() {
        int k = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
        Slot &x = s[static_cast<size_t>(k)], &y = s[static_cast<size_t>(j)];
        bool inj = (Alt<T>::can_throw || Alt<U>::can_throw) && r.chance(40);
        int w = next++ % 7; // few distinct values: equality happens
        bool first = r.coin();
        unsigned op = static_cast<unsigned>(r.below(x.alive ? 16 : 7));
        // make the arguments before arming
        switch (op) {
            case 0: // default
                kill(k);
                log += vt::fmt("default(%d) ", k);
                if (guarded([&] { new (x.mem) V(); }, {}, inj)) x.alive = true, x.m = {0, Alt<T>::val(T{})};
                break;
            case 1: case 2: { // from value
                kill(k);
                log += vt::fmt("value%s(%d,%d=%d) ", op == 1 ? "&&" : "const&", k, !first, w);
                auto go = [&](auto &&arg, int idx) {
                    if (guarded([&] { new (x.mem) V(std::forward<decltype(arg)>(arg)); }, {}, inj)) x.alive = true, x.m = {idx, w};
                };
                if (first) {
                    T a = Alt<T>::make(w);
                    if (op == 1) go(std::move(a), 0);
                    else if constexpr (Alt<T>::can_copy) go(std::as_const(a), 0);
                } else {
                    U a = Alt<U>::make(w);
                    if (op == 1) go(std::move(a), 1);
                    else if constexpr (Alt<U>::can_copy) go(std::as_const(a), 1);
                }
                break;
            }
            case 3: case 4: { // in place
                kill(k);
                log += vt::fmt("in_place_%s(%d,%d=%d) ", op == 3 ? "type" : "index", k, !first, w);
                bool ok;
                if (first) {
                    auto args = [&](auto &&f) { if constexpr (std::is_same_v<T, std::string>) f(Alt<T>::make(w).c_str()); else f(w); };
                    ok = guarded([&] { args([&](auto a) { if (op == 3) new (x.mem) V(std::in_place_type<T>, a); else new (x.mem) V(std::in_place_index<0>, a); }); }, {}, inj);
                } else {
                    auto args = [&](auto &&f) { if constexpr (std::is_same_v<U, std::string>) f(Alt<U>::make(w).c_str()); else if constexpr (std::is_same_v<U, double>) f(double(w)); else f(w); };
                    ok = guarded([&] { args([&](auto a) { if (op == 3) new (x.mem) V(std::in_place_type<U>, a); else new (x.mem) V(std::in_place_index<1>, a); }); }, {}, inj);
                }
                if (ok) x.alive = true, x.m = {first ? 0 : 1, w};
                break;
            }
            case 5: case 6: { // copy/move construct from another slot
                if (j == k || !y.alive) break;
                kill(k);
                if (op == 5) {
                    if constexpr (copyable) {
                        log += vt::fmt("copy_construct(%d<-%d) ", k, j);
                        if (guarded([&] { new (x.mem) V(std::as_const(y.v())); }, {j}, inj)) x.alive = true, x.m = y.m;
                    }
                } else {
                    log += vt::fmt("move_construct(%d<-%d) ", k, j);
                    if (guarded([&] { new (x.mem) V(std::move(y.v())); }, {j}, inj)) {
                        x.alive = true;
                        x.m = y.m;
                        moved(y);
                    }
                }
                break;
            }
            case 7: // copy assign (also from itself)
                if (!y.alive) break;
                if constexpr (copyable) {
                    log += vt::fmt("copy_assign(%d<-%d) ", k, j);
                    bool keeps = y.m.idx == 0 ? copies_first<T> : y.m.idx == 1 && copies_first<U>;
                    if (guarded([&] { V &ret = (x.v() = std::as_const(y.v())); if (&ret != &x.v()) bad("return", "assignment returns something else"); }, {k, j}, inj, keeps)) x.m = y.m;
                }
                break;
            case 8: case 9:
                if (!y.alive || j == k) break;
                log += vt::fmt("move_assign(%d<-%d) ", k, j);
                if (guarded([&] { x.v() = std::move(y.v()); }, {k, j}, inj)) {
                    x.m = y.m;
                    moved(y);
                }
                break;
            case 10: case 11: case 12: { // assign value
                log += vt::fmt("assign_value%s(%d,%d=%d) ", op == 10 ? "const&" : "&&", k, !first, w);
                auto go = [&](auto &&arg, int idx) {
                    bool keeps = op == 10 && (idx == 0 ? copies_first<T> : copies_first<U>);
                    if (guarded([&] { x.v() = std::forward<decltype(arg)>(arg); }, {k}, inj, keeps)) x.m = {idx, w};
                };
                if (first) {
                    T a = Alt<T>::make(w);
                    if (op != 10) go(std::move(a), 0);
                    else if constexpr (Alt<T>::can_copy) go(std::as_const(a), 0);
                } else {
                    U a = Alt<U>::make(w);
                    if (op != 10) go(std::move(a), 1);
                    else if constexpr (Alt<U>::can_copy) go(std::as_const(a), 1);
                }
                break;
            }
            case 13: { // emplace
                bool by_type = r.coin();
                log += vt::fmt("emplace%s(%d,%d=%d) ", by_type ? "_t" : "_i", k, !first, w);
                bool ok;
                if (first) {
                    auto args = [&](auto &&f) { if constexpr (std::is_same_v<T, std::string>) f(Alt<T>::make(w)); else f(w); };
                    ok = guarded([&] { args([&](auto a) {
                        T &ret = by_type ? x.v().template emplace<T>(std::move(a)) : x.v().template emplace<0>(std::move(a));
                        if (&ret != dtl::get_if<0>(&x.v())) bad("return", "emplace returns another object"); }); }, {k}, inj);
                } else {
                    auto args = [&](auto &&f) { if constexpr (std::is_same_v<U, std::string>) f(Alt<U>::make(w)); else if constexpr (std::is_same_v<U, double>) f(double(w)); else f(w); };
                    ok = guarded([&] { args([&](auto a) {
                        U &ret = by_type ? x.v().template emplace<U>(std::move(a)) : x.v().template emplace<1>(std::move(a));
                        if (&ret != dtl::get_if<1>(&x.v())) bad("return", "emplace returns another object"); }); }, {k}, inj);
                }
                if (ok) x.m = {first ? 0 : 1, w};
                break;
            }
            case 14: { // swap, also with itself
                if (!y.alive) break;
                log += vt::fmt("swap(%d,%d) ", k, j);
                bool inject = inj;
                M a = x.m, b = y.m;
                if (inject) arm(static_cast<long>(r.below(6)));
                try {
                    using std::swap;
                    swap(x.v(), y.v());
                    disarm();
                    x.m = b;
                    y.m = a;
                    if (k == j) x.m = a;
                } catch (Boom const &) {
                    disarm();
                    vt::count("exceptions_from_elements");
                    // basic guarantee: each side is valueless or holds one of the two values (possibly moved from)
                    for (Slot *z : {&x, &y}) {
                        M now = observe(z->v());
                        bool fine = now.idx == 2;
                        for (M const &old : {a, b})
                            if (now.idx == old.idx && (now.val == old.val || now.val == moved_out)) fine = true;
                        if (!fine) bad("after-throw", "swap");
                        z->m = now;
                    }
                }
                break;
            }
            default:
                log += vt::fmt("destroy(%d) ", k);
                kill(k);
        }
    }
    void moved(Slot &y) {
        if (y.m.idx == 2) return;
        int v = y.m.idx == 0 ? Alt<T>::after_move(y.m.val) : Alt<U>::after_move(y.m.val);
        if (y.m.val == unknown) v = unknown;
        y.m.val = v;
        if (v == unknown) { // unspecified but valid: give it a defined value again
            M now = observe(y.v());
            if (now.idx != y.m.idx) bad("index", "move changed the alternative of the source");
        }
    }
    void run() {
        reset();
        unsigned n = 4 + static_cast<unsigned>(r.below(24));
        for (unsigned i = 0; i < n; ++i) {
            step();
            uint64_t h = 0;
            for (int k = 0; k < N; ++k) {
                if (s[static_cast<size_t>(k)].alive) check_slot(k);
                h = vt::mix(h, s[static_cast<size_t>(k)].alive ? static_cast<uint64_t>(s[static_cast<size_t>(k)].m.idx * 100 + s[static_cast<size_t>(k)].m.val) : 7777);
            }
            int a = static_cast<int>(r.below(N)), b = static_cast<int>(r.below(N));
            if (s[static_cast<size_t>(a)].alive && s[static_cast<size_t>(b)].alive) check_pairs(a, b);
            expect_live(model_live(), log.c_str());
            vt::count("operations");
            vt::distinct(vt::mix(vt::hash_str(log), h));
            if (vt::st().failures) break;
        }
        for (int k = 0; k < N; ++k) kill(k);
        expect_live(0, log.c_str());
        if (vt::want_sample(vt::st().cur_suite)) vt::sample(vt::st().cur_suite, log);
    }
};

template<class T, class U>
void progs(char const *name, uint64_t n) {
    vt::run(name, n, [](vt::Rng &r, uint64_t) { Prog<T, U>(r).run(); });
}

// value semantics of construction/copy: identical program on std::variant
template<class Var>
std::string describe(Var const &v) {
    return visit([](auto const &x) -> std::string {
        using X = std::remove_cvref_t<decltype(x)>;
        if constexpr (std::is_same_v<X, std::vector<int>>) {
            std::string s = "ints[";
            for (int i : x) s += std::to_string(i) + ",";
            return s + "]";
        } else if constexpr (std::is_same_v<X, std::vector<std::any>>) return vt::fmt("anys[%zu]", x.size());
        else if constexpr (std::is_same_v<X, std::string>) return "str:" + x;
        else if constexpr (std::is_same_v<X, std::vector<std::string>>) {
            std::string s = "strs[";
            for (auto &i : x) s += i + ",";
            return s + "]";
        } else return "int:" + std::to_string(x);
    }, v);
}
template<template<class...> class V>
std::string init_program(vt::Rng r) {
    std::string out;
    {
        using A = V<std::vector<int>, int>;
        int n = static_cast<int>(r.below(6)), v = static_cast<int>(r.below(100));
        A a(std::in_place_index<0>, n, v);
        out += describe(a);
        A b(std::in_place_type<std::vector<int>>, static_cast<size_t>(n));
        out += describe(b);
        b.template emplace<0>(n, v);
        out += describe(b);
        A c(b);
        out += describe(c);
        b = 3;
        b = c;
        out += describe(b);
        c.template emplace<std::vector<int>>(static_cast<size_t>(n + 1));
        out += describe(c);
    }
    {
        using A = V<int, std::vector<std::any>>;
        std::vector<std::any> src(r.below(4));
        A a(src);
        A b(a);
        A c(std::move(b));
        out += describe(a) + describe(c);
        A d(4);
        out += describe(d);
        d = a;
        out += describe(d);
        A e(5);
        e = std::move(d);
        out += describe(e);
        A f(6);
        f = src;
        out += describe(f);
        A g(7);
        g = std::vector<std::any>(3);
        out += describe(g);
        swap(a, g);
        out += describe(a) + describe(g);
    }
    {
        using A = V<std::string, int>;
        size_t n = r.below(20);
        A a(std::in_place_index<0>, n, 'x');
        A b(std::in_place_type<std::string>, a.index() ? "" : "hello", n % 6);
        out += describe(a) + describe(b);
        a.template emplace<std::string>(n, 'y');
        out += describe(a);
        a.template emplace<1>(static_cast<int>(n));
        out += describe(a);
        std::string arr[] = {"p", "q", "r"};
        V<int, std::vector<std::string>> c(std::in_place_index<1>, arr, arr + 1 + n % 3);
        out += describe(c);
    }
    return out;
}

// assignment from an object that lives inside the assigned variant (only where std::variant defines it): the same program on both
struct Alias {
    template<template<class...> class V>
    struct On {
        struct Nil {
            Obj<9, 0> o;
        };
        struct Uniq;
        using UList = V<Uniq, Nil>;
        struct Uniq {
            Obj<3, 0> head;
            std::unique_ptr<UList> tail;
        };
        struct Shared;
        using SList = V<Nil, Shared>;
        struct Shared {
            Obj<4, 0> head;
            std::shared_ptr<SList> tail;
        };
        struct Json;
        struct Box {
            std::vector<Json> v;
        };
        using JBase = V<std::string, Box>;
        struct Json : JBase {
            using JBase::JBase;
        };
        using Strs = V<std::string, std::vector<std::string>>;
        using Strs2 = V<std::vector<Obj<5, throwing_copy>>, Obj<5, throwing_copy>>;
        static std::string run(vt::Rng r) {
            std::string out;
            size_t n = 2 + r.below(5);
            {
                UList l{Nil{}};
                for (size_t i = 0; i < n; ++i) {
                    auto t = std::make_unique<UList>(std::move(l));
                    l = Uniq{Obj<3, 0>(int(i)), std::move(t)};
                }
                for (size_t i = 1; i < n; ++i) {
                    l = std::move(*get<0>(l).tail); // pop
                    out += vt::fmt("u%zu:%d ", l.index(), get<0>(l).head.get());
                }
            }
            {
                SList l{Nil{}};
                for (size_t i = 0; i < n; ++i) {
                    auto t = std::make_shared<SList>(l);
                    l = Shared{Obj<4, 0>(int(i)), t};
                }
                SList keep(l);
                bool shared = r.coin();
                if (!shared) keep = Nil{};
                for (size_t i = 1; i < n; ++i) {
                    l = std::as_const(*get<1>(l).tail);
                    out += vt::fmt("s%zu:%d ", l.index(), get<1>(l).head.get());
                }
            }
            {
                std::vector<std::string> strs;
                for (size_t i = 0; i < n; ++i) strs.push_back(std::string(r.below(60), static_cast<char>('a' + i)));
                Strs v(strs);
                if (r.coin()) v = get<1>(v)[r.below(n)];
                else {
                    std::string const &ref = get<1>(v)[r.below(n)];
                    v = ref;
                }
                out += vt::fmt("x%zu:", v.index()) + get<0>(v) + " ";
                v = strs;
                out += vt::fmt("x%zu:%zu ", v.index(), get<1>(v).size());
            }
            {
                std::vector<Json> kids;
                for (size_t i = 0; i < n; ++i) kids.push_back(Json(std::string(r.below(50), static_cast<char>('A' + i))));
                Json j(Box{kids});
                JBase &base = j;
                base = static_cast<JBase const &>(get<1>(base).v[r.below(n)]);
                out += vt::fmt("j%zu:", base.index()) + get<0>(base) + " ";
            }
            {
                std::vector<Obj<5, throwing_copy>> objs;
                for (size_t i = 0; i < n; ++i) objs.emplace_back(int(i * 7));
                Strs2 v(std::move(objs));
                if (r.coin()) {
                    arm(0);
                    try {
                        v = get<0>(v)[r.below(n)];
                        out += "no-throw ";
                    } catch (Boom const &) {
                        out += vt::fmt("kept%zu ", v.index());
                    }
                    disarm();
                }
                if (v.index() == 0) v = get<0>(v)[r.below(n)];
                if (v.index() == 1) out += vt::fmt("o%d ", get<1>(v).get());
                v = get<1>(v);
                out += vt::fmt("o%d ", get<1>(v).get());
            }
            return out;
        }
    };
};

// value categories of get/visit
static void categories() {
    using V = dtl::variant2<int, std::string>;
    static_assert(std::is_same_v<decltype(dtl::get<0>(std::declval<V &>())), int &>);
    static_assert(std::is_same_v<decltype(dtl::get<0>(std::declval<V const &>())), int const &>);
    static_assert(std::is_same_v<decltype(dtl::get<1>(std::declval<V &&>())), std::string &&>);
    static_assert(std::is_same_v<decltype(dtl::get<1>(std::declval<V const &&>())), std::string const &&>);
    static_assert(std::is_same_v<decltype(dtl::get<std::string>(std::declval<V &>())), std::string &>);
    static_assert(std::is_same_v<decltype(dtl::get<std::string>(std::declval<V &&>())), std::string &&>);
    static_assert(std::is_same_v<decltype(dtl::get_if<0>(std::declval<V const *>())), int const *>);
    static_assert(std::is_same_v<decltype(dtl::get_if<std::string>(std::declval<V *>())), std::string *>);
    static_assert(std::is_same_v<dtl::variant<int, std::string>, V> && std::is_same_v<dtl::variant<int, std::string, char>, std::variant<int, std::string, char>>);
    static_assert(std::variant_size_v<V> == 2 && std::is_same_v<std::variant_alternative_t<1, V>, std::string>);
    V v(std::string("abc"));
    int seen = 0;
    struct Vis {
        int &s;
        int operator()(int &) const { return s = 1; }
        int operator()(int const &) const { return s = 2; }
        int operator()(int &&) const { return s = 3; }
        int operator()(int const &&) const { return s = 4; }
        int operator()(std::string &) const { return s = 5; }
        int operator()(std::string const &) const { return s = 6; }
        int operator()(std::string &&) const { return s = 7; }
        int operator()(std::string const &&) const { return s = 8; }
    } vis{seen};
    auto all = [&](V &x, int base) {
        VT_CHECK("category", dtl::visit(vis, x) == base + 1);
        VT_CHECK("category", dtl::visit(vis, std::as_const(x)) == base + 2);
        VT_CHECK("category", dtl::visit(vis, std::move(x)) == base + 3);
        VT_CHECK("category", dtl::visit(vis, std::move(std::as_const(x))) == base + 4);
    };
    all(v, 4);
    v = 3;
    all(v, 0);
    int &ref = dtl::visit([](auto &x) -> int & { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, int>) return x; else std::abort(); }, v);
    ref = 77;
    VT_CHECK("category", dtl::get<int>(v) == 77);
    std::string moved_into = dtl::get<1>(V(std::string("taken")));
    VT_CHECK("category", moved_into == "taken");
}

// ---- constructor arguments and converted values arrive as they were passed: identity, value category, move-only values
namespace args {
struct Arg {
    int id;
    int copies = 0, moves = 0;
    explicit Arg(int i) : id(i) {}
    Arg(Arg const &o) : id(o.id), copies(o.copies + 1), moves(o.moves) {}
    Arg(Arg &&o) noexcept : id(o.id), copies(o.copies), moves(o.moves + 1) { o.id = -1; }
    Arg &operator=(Arg const &o) {
        id = o.id, copies = o.copies + 1, moves = o.moves;
        return *this;
    }
    Arg &operator=(Arg &&o) noexcept {
        id = o.id, copies = o.copies, moves = o.moves + 1, o.id = -1;
        return *this;
    }
};
template<int K>
struct D {
    std::string how = "default";
    void const *addr = nullptr;
    std::unique_ptr<int> owned;
    int id = 0, copies = 0, moves = 0;
    D() = default;
    explicit D(Arg &a) : D(&a, "lvalue") { id = a.id; }
    explicit D(Arg const &a) : D(&a, "const lvalue") { id = a.id; }
    explicit D(Arg &&a) : D(&a, "rvalue") { take(std::move(a)); }
    D(Arg const &&a) = delete;
    D(Arg &a, Arg &&b, std::unique_ptr<int> p) : D(&a, "lvalue,rvalue,value") {
        owned = std::move(p);
        take(std::move(b));
    }
    D(Arg const &a, Arg &b, int (&arr)[3]) : D(&a, b.id == arr[0] ? "const lvalue,lvalue,array" : "?") { arr[1] = a.id; }

private:
    D(void const *p, char const *h) : how(h), addr(p) {}
    void take(Arg a) {
        id = a.id;
        copies = a.copies;
        moves = a.moves;
    }
};
template<size_t K>
void go(vt::Rng &r) {
    using X = D<static_cast<int>(K)>;
    using P = dtl::variant2<D<0>, D<1>>;
    unsigned form = static_cast<unsigned>(r.below(4));
    std::optional<P> p;
    auto with = [&](auto &&...a) {
        if (form >= 2) {
            if (r.coin()) p.emplace(std::in_place_index<1 - K>);
            else p.emplace(std::in_place_index<K>);
        }
        if (form == 0) p.emplace(std::in_place_index<K>, std::forward<decltype(a)>(a)...);
        else if (form == 1) p.emplace(std::in_place_type<X>, std::forward<decltype(a)>(a)...);
        else if (form == 2) p->template emplace<K>(std::forward<decltype(a)>(a)...);
        else p->template emplace<X>(std::forward<decltype(a)>(a)...);
        vt::count("forwarded_argument_lists");
        return p->index() == K;
    };
    int id = static_cast<int>(r.below(1000));
    Arg a(id), b(id + 1);
    Arg const c(id + 2);
    auto is = [&](char const *how, void const *addr, int want_id) {
        X const &x = dtl::get<K>(*p);
        vt::distinct(vt::mix(vt::hash_str(std::string(how)), K * 4 + form));
        VT_CHECK("forwarding", x.how == how && x.addr == addr && x.id == want_id && x.copies == 0 && x.moves <= 1, "form %u: constructor saw '%s' id %d (%d copies, %d moves), passed '%s' id %d", form,
                 x.how.c_str(), x.id, x.copies, x.moves, how, want_id);
    };
    VT_CHECK("forwarding", with(a));
    is("lvalue", &a, id);
    VT_CHECK("forwarding", a.id == id);
    VT_CHECK("forwarding", with(c));
    is("const lvalue", &c, id + 2);
    VT_CHECK("forwarding", with(std::move(b)));
    is("rvalue", &b, id + 1);
    VT_CHECK("forwarding", b.id == -1);
    Arg d(id + 5);
    auto up = std::make_unique<int>(id);
    int *raw = up.get();
    VT_CHECK("forwarding", with(a, std::move(d), std::move(up)));
    is("lvalue,rvalue,value", &a, id + 5);
    VT_CHECK("forwarding", dtl::get<K>(*p).owned.get() == raw && !up && d.id == -1);
    int arr[3] = {a.id, 0, 0};
    VT_CHECK("forwarding", with(c, a, arr));
    VT_CHECK("forwarding", dtl::get<K>(*p).how == "const lvalue,lvalue,array" && dtl::get<K>(*p).addr == &c && arr[1] == c.id);
}
// converting construction and assignment, copy and move of whole variants: number of copies and the sources left behind as in std::variant
template<template<class...> class V, size_t K>
std::string convert(vt::Rng r) {
    struct Other {};
    using P = std::conditional_t<K == 0, V<Arg, Other>, V<Other, Arg>>;
    std::string out;
    int id = static_cast<int>(r.below(1000));
    auto show = [&](P const &p, Arg const &src) { out += p.index() == K ? vt::fmt("[%d %dc|%d]", get<K>(p).id, get<K>(p).copies, src.id) : vt::fmt("[other|%d]", src.id); };
    Arg const c(id);
    Arg l(id + 1), x(id + 2);
    P p1(l);
    show(p1, l);
    P p2(std::move(x));
    show(p2, x);
    P p3(c);
    show(p3, c);
    for (int round = 0; round < 4; ++round) {
        P q = r.coin() ? P(Arg(7)) : P(Other{});
        Arg m(id + 10 + round);
        switch (r.below(5)) {
            case 0: q = m; break;
            case 1: q = std::move(m); break;
            case 2: q = std::as_const(m); break;
            case 3: {
                P s(std::move(m));
                q = std::move(s);
                out += vt::fmt("<%d>", get<K>(s).id);
                break;
            }
            default: {
                P s(m);
                q = s;
                out += vt::fmt("<%d>", get<K>(s).id);
            }
        }
        show(q, m);
        P cp(q);
        show(cp, m);
        P mv(std::move(q));
        show(mv, m);
        out += vt::fmt("<%d>", get<K>(q).id);
        Arg taken = get<K>(std::move(mv));
        out += vt::fmt("{%d %dc %d}", taken.id, taken.copies, get<K>(mv).id);
        P other(Other{});
        swap(cp, other);
        show(other, m);
        vt::count("converted_values");
    }
    return out;
}
}

static void vt_main() {
    constexpr unsigned TH = throwing_ctor | throwing_copy | throwing_move;
#if !defined(PART) || PART == 0
    progs<Obj<1, 0>, Obj<2, 0>>("nothrow-nothrow", 12000);
    progs<Obj<1, throwing_copy>, Obj<2, throwing_ctor>>("throwing-copy-ctor", 10000);
    progs<Obj<1, TH>, int>("throw-int", 10000);
    progs<Obj<1, no_move_decl | throwing_copy>, Obj<2, 0>>("copyonly-nothrow", 8000);
    progs<int, double>("int-double", 4000);
    progs<std::string, Obj<2, TH>>("string-throw", 8000);
    progs<int, TrivAssign<2>>("int-trivial-assign", 6000);
    progs<Obj<1, throwing_assign>, Obj<2, throwing_assign>>("throwing-assign", 6000);
    progs<int, Obj<2, throwing_assign>>("int-throwing-assign", 4000);
    progs<Obj<1, throwing_assign | no_copy>, Obj<2, 0>>("moveonly-throwing-assign", 4000);
#endif
#if !defined(PART) || PART == 1
    progs<Obj<1, TH>, Obj<2, TH>>("throw-throw", 20000);
    progs<Obj<1, throwing_move>, Obj<2, throwing_copy>>("throwing-move-copy", 10000);
    progs<int, Obj<2, TH>>("int-throw", 10000);
    progs<Obj<1, no_copy>, Obj<2, no_copy | throwing_move>>("moveonly", 8000);
    progs<std::string, int>("string-int", 6000);
    progs<TrivAssign<1>, TrivAssign<2>>("trivial-assign", 6000);
    progs<CountAssign, int>("count-assign", 4000);
    vt::run("like-std-variant", 300, [](vt::Rng &r, uint64_t) {
        vt::Rng a = r;
        auto mine = init_program<dtl::variant2>(a), ref = init_program<std::variant>(a);
        if (mine != ref) vt::fail_s("differs-from-std-variant", mine + " expected " + ref);
        vt::distinct(vt::hash_str(ref));
    });
    vt::run("forwarded-arguments", 40, [](vt::Rng &r, uint64_t i) { i % 2 ? args::go<0>(r) : args::go<1>(r); });
    vt::run("converted-values", 100, [](vt::Rng &r, uint64_t i) {
        vt::Rng a = r;
        auto mine = i % 2 ? args::convert<dtl::variant2, 0>(a) : args::convert<dtl::variant2, 1>(a);
        auto ref = i % 2 ? args::convert<std::variant, 0>(a) : args::convert<std::variant, 1>(a);
        if (mine != ref) vt::fail_s("differs-from-std-variant", mine + " expected " + ref);
        vt::distinct(vt::hash_str(ref));
    });
    vt::run("source-inside", 300, [](vt::Rng &r, uint64_t) {
        reset();
        vt::Rng a = r;
        auto mine = Alias::On<dtl::variant2>::run(a);
        expect_live(0, "source-inside");
        auto ref = Alias::On<std::variant>::run(a);
        reset();
        if (mine != ref) vt::fail_s("differs-from-std-variant", mine + " expected " + ref);
        vt::count("assigned_from_inside");
        vt::distinct(vt::hash_str(ref));
    });
    vt::run("throwing-compare-and-hash", 40, [](vt::Rng &r, uint64_t i) {
        using V = dtl::variant2<Touchy, int>;
        using W = dtl::variant2<int, Touchy>;
        V a(Touchy{int(r.below(3))}), b(Touchy{int(r.below(3))}), c(4);
        W d(a.index() ? Touchy{1} : Touchy{2}), e(Touchy{1});
        Touchy::bomb = true;
        auto boom = [&](auto &&f) {
            try {
                f();
            } catch (Boom const &) {
                return true;
            }
            return false;
        };
        vt::count("throwing_comparisons");
        VT_CHECK("throwing-compare", boom([&] { (void) (a == b); }) && boom([&] { (void) (a < b); }) && boom([&] { (void) std::hash<V>{}(a); }));
        VT_CHECK("throwing-compare", boom([&] { (void) (d == e); }) && boom([&] { (void) (d < e); }) && boom([&] { (void) std::hash<W>{}(d); }));
        VT_CHECK("throwing-compare", boom([&] { (void) (d != e); }) && boom([&] { (void) (a <=> b); }) && boom([&] { (void) (d <=> e); }));
        VT_CHECK("throwing-compare", !boom([&] { (void) (a == c); }) && !boom([&] { (void) (a < c); }) && !boom([&] { (void) std::hash<V>{}(c); }));
        Touchy::bomb = false;
        VT_CHECK("throwing-compare", (a == b) == (dtl::get<0>(a).v == dtl::get<0>(b).v));
        vt::distinct(i);
    });
    vt::run("double-nan", 20, [](vt::Rng &r, uint64_t) {
        using V = dtl::variant2<double, int>;
        using S = std::variant<double, int>;
        double vals[] = {0.0, -0.0, 1.5, std::nan(""), INFINITY};
        double x = vals[r.below(5)], y = vals[r.below(5)];
        VT_CHECK("ordering", (V(x) <=> V(y)) == (S(x) <=> S(y)) && (V(x) == V(y)) == (S(x) == S(y)) && (V(x) < V(y)) == (S(x) < S(y)), "%g %g", x, y);
        VT_CHECK("ordering", (V(x) <=> V(3)) == (S(x) <=> S(3)));
    });
    vt::run("categories", 1, [](vt::Rng &, uint64_t) { categories(); }, false);
#endif
}
VT_MAIN
