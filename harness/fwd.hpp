// C26: drivers for bind_front and overloaded/match.  gen_fwd.py instantiates them with argument kinds, value categories, variants and
// overload sets drawn from the seed; every call is traced (which function, which arguments, with what type, constness, category, value
// and address) and compared with the same call through std::bind_front or through a hand-written visitor class and std::visit.
#pragma once
#include "ledger.hpp"
#include "vt.hpp"
#include <dice/template-library/functional.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/variant2.hpp>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>

namespace dtl = dice::template_library;

using Obj1 = ledger::Obj<1, 0>;
using Obj2 = ledger::Obj<2, ledger::throwing_copy | ledger::throwing_move>;
using Mo = ledger::Obj<3, ledger::no_copy>;
using Thr = ledger::Obj<4, ledger::throwing_ctor>;
enum class En { a, b, c };
struct Base { int v = 0; };
struct Der : Base { int w = 0; };

template<std::integral T> long value_of(T x) { return static_cast<long>(x); }
inline long value_of(double x) { return static_cast<long>(x * 16); }
inline long value_of(En x) { return static_cast<long>(x); }
inline long value_of(Base const &x) { return x.v; }
inline long value_of(std::string const &x) { return static_cast<long>(vt::hash_str(x) >> 1); }
inline long value_of(char const *x) { return value_of(std::string(x)); }
inline long value_of(std::unique_ptr<int> const &x) { return x ? *x : -9; }
template<int T, unsigned F> long value_of(ledger::Obj<T, F> const &x) { return x.get(); }
template<class T> long value_of(std::reference_wrapper<T> x) { return value_of(x.get()); }
inline long value_of(long (*f)(long)) { return f(5); }
inline long twice(long x) { return 2 * x; }

struct Seen {
    char const *type;
    bool lvalue, constant;
    long value;
    void const *addr;
    bool like(Seen const &o) const { return !strcmp(type, o.type) && lvalue == o.lvalue && constant == o.constant && value == o.value; }
};
inline std::vector<Seen> g_seen;
inline int g_calls, g_id;
inline int g_cell = 42;
template<class A> void see(A &&a) {
    using T = std::remove_reference_t<A>;
    g_seen.push_back({typeid(std::remove_cv_t<T>).name(), std::is_lvalue_reference_v<A>, std::is_const_v<T>, value_of(a), reinterpret_cast<void const *>(std::addressof(a))});
}
// an rvalue argument is consumed
template<class A> void consume(A &&a) {
    if constexpr (!std::is_lvalue_reference_v<A> && !std::is_const_v<A> && std::is_class_v<A>) { A local(std::move(a)); (void) local; }
}
inline std::string text(std::vector<Seen> const &s) {
    std::string o;
    for (auto &x : s) o += vt::fmt("%s%s%s=%ld ", x.type, x.constant ? " const" : "", x.lvalue ? "&" : "&&", x.value);
    return o;
}

// ------------------------------------------------------------------------------------------------ call targets (structural)
template<int Mode, bool Nx = false> struct Any {
    template<class... A> constexpr decltype(auto) operator()(A &&...a) const noexcept(Nx) {
        ++g_calls;
        (see(std::forward<A>(a)), ...);
        if constexpr (Mode == 2 && sizeof...(A) > 0) {
            return std::get<0>(std::forward_as_tuple(std::forward<A>(a)...)); // hands its first argument back
        } else if constexpr (Mode == 3 && sizeof...(A) > 0) {
            return std::get<sizeof...(A) - 1>(std::forward_as_tuple(std::forward<A>(a)...));
        } else {
            (consume(std::forward<A>(a)), ...);
            if constexpr (Mode == 1) return (g_cell);
            else if constexpr (Mode == 4) return;
            else return g_calls;
        }
    }
};
struct Keyed { // a functor with a value
    int key;
    template<class... A> constexpr int operator()(A &&...a) const {
        ++g_calls;
        (see(std::forward<A>(a)), ...);
        return key;
    }
};
inline int f_int(int a, int b) { ++g_calls; return see(a), see(b), a * 100 + b; }
inline Obj1 f_obj(Obj1 a, Obj1 &&b, Obj1 const &c) { ++g_calls; see(a), see(std::move(b)), see(c); return Obj1(a.get() + 2 * b.get() + 3 * c.get()); }
inline Obj1 const &f_ref(Obj1 const &a, int) noexcept { ++g_calls; see(a); return a; }
inline Mo f_mo(Mo a, Mo b) { ++g_calls; see(a), see(b); return Mo(a.get() * 100 + b.get()); }
inline std::unique_ptr<int> f_up(std::unique_ptr<int> a, int b) noexcept { ++g_calls; see(a); if (a) *a += b; return a; }
inline std::string f_str(std::string a, std::string const &b, char const *c) { ++g_calls; return see(a), see(b), a + b + c; }
struct Cls {
    int x = 0;
    int m(int a) { ++g_calls; see(a); return x += a; }
    int mc(int a, int b) const noexcept { ++g_calls; see(a), see(b); return x * 100 + a * 10 + b; }
    Cls &ml(int a) & { ++g_calls; x = a; return *this; }
    int mr() && { ++g_calls; return std::exchange(x, -1); }
    virtual int virt(Obj1 o) const { ++g_calls; see(o); return o.get() + x; }
    virtual ~Cls() = default;
    Cls(int v = 0) : x{v} {}
    Cls(Cls const &) = default;
};
struct Sub : Cls {
    using Cls::Cls;
    int virt(Obj1 o) const override { ++g_calls; see(o); return 1000 + o.get() + x; }
};
inline long value_of(Cls const &x) { return x.x; }
inline long value_of(Cls *x) { return x->x; }

// ------------------------------------------------------------------------------------------------ arguments
inline int fresh(vt::Rng &r) { return 1 + static_cast<int>(r.below(90)); }
struct KInt { using T = int; static T make(int v) { return v; } };
struct KDouble { using T = double; static T make(int v) { return v / 4.0; } };
struct KObj { using T = Obj1; static T make(int v) { return T(v); } };
struct KMo { using T = Mo; static T make(int v) { return T(v); } };
struct KUp { using T = std::unique_ptr<int>; static T make(int v) { return std::make_unique<int>(v); } };
struct KStr { using T = std::string; static T make(int v) { return std::string(static_cast<size_t>(v), 'x'); } };
struct KCls { using T = Cls; static T make(int v) { return T(v); } };
struct KSub { using T = Sub; static T make(int v) { return T(v); } };
struct KArr { using T = char[6]; }; // decays to a pointer
struct KFun { using T = long(long); };
struct KRef { using T = std::reference_wrapper<Obj1>; };
struct KPtr { using T = Cls *; };
struct KSubRef { using T = std::reference_wrapper<Sub>; };

template<class K> struct Holder { // owns one argument
    typename K::T value;
    Holder(int v) : value(K::make(v)) {}
    auto &get() { return value; }
    long state() { return value_of(value); }
};
template<> struct Holder<KArr> {
    char value[6];
    Holder(int v) { snprintf(value, sizeof value, "%d", v); }
    auto &get() { return value; }
    long state() { return value_of(static_cast<char const *>(value)); }
};
template<> struct Holder<KFun> {
    Holder(int) {}
    auto &get() { return twice; }
    long state() { return 0; }
};
template<> struct Holder<KRef> {
    Obj1 target;
    std::reference_wrapper<Obj1> value{target};
    Holder(int v) : target(v) {}
    auto &get() { return value; }
    long state() { return target.get(); }
};
template<> struct Holder<KPtr> {
    Sub target;
    Cls *value{&target};
    Holder(int v) : target(v) {}
    auto &get() { return value; }
    long state() { return target.x; }
};
template<> struct Holder<KSubRef> {
    Sub target;
    std::reference_wrapper<Sub> value{target};
    Holder(int v) : target(v) {}
    auto &get() { return value; }
    long state() { return target.x; }
};
struct L { template<class T> static T &as(T &x) { return x; } };
struct CL { template<class T> static T const &as(T &x) { return x; } };
struct R { template<class T> static T &&as(T &x) { return static_cast<T &&>(x); } };
struct CR { template<class T> static T const &&as(T &x) { return static_cast<T const &&>(x); } };
template<class K, class C> struct Arg {
    using Kind = K;
    using Cat = C;
    using type = decltype(C::as(std::declval<Holder<K> &>().get()));
};
template<class... A> struct Args {
    static constexpr size_t n = sizeof...(A);
    std::tuple<Holder<typename A::Kind>...> hold;
    explicit Args(std::vector<int> const &v) : Args(v, std::make_index_sequence<n>{}) {}
    template<size_t... I> Args(std::vector<int> const &v, std::index_sequence<I...>) : hold{v[I]...} {}
    template<class F> decltype(auto) apply(F &&f) {
        return [&]<size_t... I>(std::index_sequence<I...>) -> decltype(auto) { return f(A::Cat::as(std::get<I>(hold).get())...); }(std::make_index_sequence<n>{});
    }
    std::vector<long> states() {
        return std::apply([](auto &...h) { return std::vector<long>{h.state()...}; }, hold);
    }
    std::vector<void const *> addresses() {
        return std::apply([](auto &...h) { return std::vector<void const *>{reinterpret_cast<void const *>(&h.get())...}; }, hold);
    }
};
template<class F, class AsCat, class... C> constexpr bool callable(Args<C...> *) { return std::is_invocable_v<decltype(AsCat::as(std::declval<F &>())), typename C::type...>; }
template<class F, class AsCat, class... C> constexpr bool nothrow(Args<C...> *) { return std::is_nothrow_invocable_v<decltype(AsCat::as(std::declval<F &>())), typename C::type...>; }

template<auto Func, class Bound, class Call> struct BindCase {
    template<class F> struct Side { // one implementation and its own arguments
        Bound &bound;
        F f;
        std::optional<F> copy;
    };
    static void run(vt::Rng &r, char const *name) {
        for (int round = 0; round < 6; ++round) {
            ledger::reset();
            one(r, name);
            ledger::expect_live(0, name);
        }
    }
    static void one(vt::Rng &r, char const *name) {
        std::vector<int> bv, log;
        for (size_t i = 0; i < Bound::n; ++i) bv.push_back(fresh(r));
        Bound b1(bv), b2(bv);
        auto &book = ledger::book();
        auto const c0 = book.copies, m0 = book.moves;
        auto mine = b1.apply([](auto &&...a) { return dtl::bind_front<Func>(std::forward<decltype(a)>(a)...); });
        auto const c1 = book.copies, m1 = book.moves;
        auto ref = b2.apply([](auto &&...a) { return std::bind_front(Func, std::forward<decltype(a)>(a)...); });
        auto const c2 = book.copies, m2 = book.moves;
        if (c1 - c0 != c2 - c1 || m1 - m0 != m2 - m1 || b1.states() != b2.states())
            vt::fail("fwd:binding", "%s: binding copies %lu and moves %lu objects, expected %lu and %lu", name, c1 - c0, m1 - m0, c2 - c1, m2 - m1);
        using M = decltype(mine);
        using S = decltype(ref);
        static_assert(std::is_copy_constructible_v<M> == std::is_copy_constructible_v<S> && std::is_move_constructible_v<M> == std::is_move_constructible_v<S>);
        std::string how;
        if (round_trip(r) && std::is_copy_constructible_v<M>) {
            if constexpr (std::is_copy_constructible_v<M>) {
                auto mc = mine;
                auto rc = ref;
                how += "copied ";
                call(r, mine, ref, name, how, r.below(4)); // a copy does not feel calls of the original
                call(r, mc, rc, name, how, r.below(4));
                call(r, mc, rc, name, how, r.below(4));
            }
        } else if (r.coin()) {
            auto mm = std::move(mine);
            auto rm = std::move(ref);
            how += "moved ";
            call(r, mm, rm, name, how, r.below(4));
            call(r, mm, rm, name, how, r.below(4));
        }
        for (int i = 0; i < 4; ++i) call(r, mine, ref, name, how, r.below(4));
        if (vt::want_sample("bind_front")) vt::sample("bind_front", std::string(name) + " " + how);
        vt::distinct(vt::hash_str(std::string(name) + how));
    }
    static bool round_trip(vt::Rng &r) { return r.coin(); }
    template<class M, class S> static void call(vt::Rng &r, M &mine, S &ref, char const *name, std::string &how, size_t cat) {
        switch (cat) {
            case 0: call_as<L>(r, mine, ref, name, how, "&"); break;
            case 1: call_as<CL>(r, mine, ref, name, how, "const&"); break;
            case 2: call_as<R>(r, mine, ref, name, how, "&&"); break;
            default: call_as<CR>(r, mine, ref, name, how, "const&&"); break;
        }
    }
    template<class As, class M, class S> static void call_as(vt::Rng &r, M &mine, S &ref, char const *name, std::string &how, char const *cat) {
        if constexpr (callable<S, As>(static_cast<Call *>(nullptr))) {
            static_assert(nothrow<M, As>(static_cast<Call *>(nullptr)) == nothrow<S, As>(static_cast<Call *>(nullptr)));
            std::vector<int> cv;
            for (size_t i = 0; i < Call::n; ++i) cv.push_back(fresh(r));
            Call a1(cv), a2(cv);
            how += std::string(cat) + "(";
            for (int x : cv) how += std::to_string(x) + " ";
            how += ") ";
            auto &book = ledger::book();
            auto go = [&](auto &f, Call &a, std::vector<Seen> &seen, int &calls, long &value, void const *&addr, uint64_t &copies, uint64_t &moves) -> decltype(auto) {
                auto const c = book.copies, m = book.moves;
                g_seen.clear(), g_calls = 0;
                using Res = decltype(a.apply([&](auto &&...x) -> decltype(auto) { return As::as(f)(std::forward<decltype(x)>(x)...); }));
                if constexpr (std::is_void_v<Res>) {
                    a.apply([&](auto &&...x) -> decltype(auto) { return As::as(f)(std::forward<decltype(x)>(x)...); });
                    value = 0, addr = nullptr;
                } else {
                    Res res = a.apply([&](auto &&...x) -> decltype(auto) { return As::as(f)(std::forward<decltype(x)>(x)...); });
                    value = value_of(res);
                    addr = std::is_reference_v<Res> ? reinterpret_cast<void const *>(std::addressof(res)) : nullptr;
                }
                seen = g_seen, calls = g_calls, copies = book.copies - c, moves = book.moves - m;
                return static_cast<std::type_identity<Res> *>(nullptr);
            };
            std::vector<Seen> s1, s2;
            int n1, n2;
            long v1, v2;
            void const *r1, *r2;
            uint64_t cp1, cp2, mv1, mv2;
            auto t1 = go(mine, a1, s1, n1, v1, r1, cp1, mv1);
            auto t2 = go(ref, a2, s2, n2, v2, r2, cp2, mv2);
            static_assert(std::is_same_v<decltype(t1), decltype(t2)>, "the result has another type");
            vt::count("bound_calls");
            bool ok = n1 == n2 && s1.size() == s2.size() && v1 == v2 && cp1 == cp2 && mv1 == mv2 && a1.states() == a2.states();
            // a reference result names the same place
            auto place = [](void const *p, auto &f, Call &a) {
                auto const *q = static_cast<char const *>(p), *o = reinterpret_cast<char const *>(&f);
                auto addr = a.addresses();
                if (!p) return -1;
                for (size_t i = 0; i < addr.size(); ++i) if (addr[i] == p) return static_cast<int>(i);
                if (q >= o && q < o + sizeof f) return 100;
                return p == &g_cell ? 101 : 102;
            };
            ok = ok && place(r1, mine, a1) == place(r2, ref, a2);
            for (size_t i = 0; ok && i < s1.size(); ++i) ok = s1[i].like(s2[i]) && place(s1[i].addr, mine, a1) == place(s2[i].addr, ref, a2);
            if (!ok)
                vt::fail("fwd:bound-call", "%s: calls %d, arguments %s, result %ld, %lu copies, %lu moves; expected %d, %s, %ld, %lu, %lu | %s", name, n1, text(s1).c_str(), v1, cp1, mv1, n2, text(s2).c_str(), v2, cp2, mv2,
                         how.c_str());
        }
    }
};

// ------------------------------------------------------------------------------------------------ match
template<class A> void hit(int id, A &&a) {
    ++g_calls, g_id = id;
    see(std::forward<A>(a));
}
template<class T, class V> T const *held(V const &v) {
    if constexpr (requires { std::get_if<T>(&v); }) return std::get_if<T>(&v);
    else return dtl::get_if<T>(&v);
}
template<class T> T make_value(int v) {
    if constexpr (std::is_same_v<T, std::string>) return std::string(static_cast<size_t>(v), 'y');
    else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(v);
    else if constexpr (std::is_same_v<T, En>) return static_cast<En>(v % 3);
    else if constexpr (std::is_same_v<T, Base>) return Base{v};
    else if constexpr (std::is_same_v<T, Der>) return Der{{v}, 1};
    else return T(v);
}
template<class... T> struct DerivedVariant : std::variant<T...> {
    using std::variant<T...>::variant;
};
// Vis: the hand-written visitor; mk(f) calls f with the overload set
template<class V, class As, class Vis, class... Ts> struct MatchCase {
    template<class Mk> static void run(vt::Rng &r, char const *name, Mk &&mk) {
        for (int round = 0; round < 4; ++round) {
            ledger::reset();
            (one<Ts>(r, name, mk), ...);
            valueless(r, name, mk);
            ledger::expect_live(0, name);
        }
    }
    template<class T, class Mk> static void one(vt::Rng &r, char const *name, Mk &&mk) {
        int const x = fresh(r);
        V a(std::in_place_type<T>, make_value<T>(x)), b(std::in_place_type<T>, make_value<T>(x));
        auto &book = ledger::book();
        auto go = [&](auto &&call, V &v, std::vector<Seen> &seen, std::array<long, 7> &n) {
            auto const c = book.copies, m = book.moves;
            g_seen.clear(), g_calls = 0, g_id = -1;
            decltype(auto) res = call(As::as(v));
            n = {g_calls, g_id, static_cast<long>(book.copies - c), static_cast<long>(book.moves - m), value_of(res), std::is_reference_v<decltype(res)> ? reinterpret_cast<char const *>(&res) == reinterpret_cast<char const *>(&g_cell) : 7,
                 g_seen.empty() ? -1 : g_seen[0].addr == static_cast<void const *>(held<T>(v))};
            seen = g_seen;
            return static_cast<std::type_identity<decltype(res)> *>(nullptr);
        };
        std::vector<Seen> s1, s2;
        std::array<long, 7> n1, n2;
        auto t1 = go([&](auto &&v) -> decltype(auto) { return mk([&](auto &&...fs) -> decltype(auto) { return dtl::match(std::forward<decltype(v)>(v), std::forward<decltype(fs)>(fs)...); }); }, a, s1, n1);
        auto t2 = go([&](auto &&v) -> decltype(auto) { return visit(Vis{}, std::forward<decltype(v)>(v)); }, b, s2, n2);
        static_assert(std::is_same_v<decltype(t1), decltype(t2)>, "match returns another type than visit");
        vt::count("matches");
        bool ok = n1 == n2 && s1.size() == 1 && s2.size() == 1 && s1[0].like(s2[0]);
        if (!ok)
            vt::fail("fwd:match", "%s: handler %ld called %ld times with %s(copies %ld, moves %ld, result %ld), expected handler %ld with %s(copies %ld, moves %ld, result %ld)", name, n1[1], n1[0], text(s1).c_str(), n1[2], n1[3], n1[4], n2[1],
                     text(s2).c_str(), n2[2], n2[3], n2[4]);
        vt::distinct(vt::hash_str(std::string(name)) + static_cast<uint64_t>(x * 100) + s1.size() * static_cast<uint64_t>(n1[1]));
    }
    template<class Mk> static void valueless(vt::Rng &r, char const *name, Mk &&mk) {
        if constexpr ((std::is_same_v<Ts, Thr> || ...)) {
            using First = std::tuple_element_t<0, std::tuple<Ts...>>;
            V v(std::in_place_type<First>, make_value<First>(fresh(r)));
            ledger::arm(0);
            try {
                v.template emplace<Thr>(3);
            } catch (ledger::Boom const &) {
            }
            ledger::disarm();
            if (!v.valueless_by_exception()) return;
            g_calls = 0;
            bool threw = false;
            try {
                (void) mk([&](auto &&...fs) -> decltype(auto) { return dtl::match(As::as(v), std::forward<decltype(fs)>(fs)...); });
            } catch (std::bad_variant_access const &) {
                threw = true;
            }
            if (!threw || g_calls) vt::fail("fwd:match-valueless", "%s: matching a valueless variant", name);
            vt::count("valueless_matches");
        }
    }
};
