// C22: drivers for switch_cases / switch_bool / for_types / for_values / for_range / integer sequence makers.  gen_switch.py writes a program
// that instantiates them with ranges, value lists and type lists drawn from the seed; the expectations are computed here at run time
// with 128-bit arithmetic, independently of the library's templates.
#pragma once
#include "vt.hpp"
#include <dice/template-library/for.hpp>
#include <dice/template-library/integral_sequence.hpp>
#include <dice/template-library/switch_cases.hpp>
#include <array>
#include <memory>
#include <optional>
#include <string>

namespace dtl = dice::template_library;
using Wide = __int128;

inline std::string ws(Wide v) {
    if (v == 0) return "0";
    bool const neg = v < 0;
    std::string s;
    unsigned __int128 m = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    for (; m; m /= 10) s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(m % 10)));
    return neg ? "-" + s : s;
}
struct Boom { long long at; };

template<class T, T First, T Last, bool OneBound> struct Switch {
    static constexpr Wide lo = std::min<Wide>(First, Last), hi = std::max<Wide>(First, Last);
    static bool in(Wide v) { return lo <= v && v < hi; }
    static std::string name() { return std::string("switch_cases<") + typeid(T).name() + " " + ws(First) + ", " + ws(Last) + ">"; }
    template<class... A> static constexpr decltype(auto) call(T v, A &&...a) {
        if constexpr (OneBound) return dtl::switch_cases<Last>(v, std::forward<A>(a)...);
        else return dtl::switch_cases<First, Last>(v, std::forward<A>(a)...);
    }
    template<class I> static constexpr void ok(I) { // the handler may only be instantiated for values of the range, with constants of the range's type
        static_assert(std::is_same_v<typename I::value_type, T>, "case constants have the type of the bounds");
        static_assert(lo <= Wide(I::value) && Wide(I::value) < hi, "the handler is only instantiated for values of the range");
    }
    struct OnceOnly { // may only be called as an rvalue
        int *calls;
        Wide *seen;
        template<class I> long operator()(I i) && {
            ok(i);
            ++*calls;
            *seen = I::value;
            return static_cast<long>(I::value) ^ 5;
        }
        template<class I> long operator()(I i) & {
            (void) std::move(*this)(i);
            return -77;
        }
    };
    struct DefOnce {
        int *calls;
        long operator()() && { ++*calls; return 1234567; }
        long operator()() & { return -78; }
    };
    static void check(char const *what, T v, int calls, int defaults, Wide seen, bool expect_in) {
        vt::count(expect_in ? "case_calls" : "default_calls");
        if (calls != (expect_in ? 1 : 0) || defaults != (expect_in ? 0 : 1))
            vt::fail("wrong-calls", "%s(%s), %s: the handler ran %d times, the default %d times", name().c_str(), ws(v).c_str(), what, calls, defaults);
        else if (expect_in && seen != Wide(v)) vt::fail("wrong-case", "%s(%s), %s: the handler ran for %s", name().c_str(), ws(v).c_str(), what, ws(seen).c_str());
    }
    static void value(T v) {
        bool const e = in(v);
        int calls = 0, defaults = 0;
        Wide seen = 0;
        auto reset = [&] { calls = defaults = 0; seen = 0; };
        { // by value
            auto const f = [&](auto i) -> std::string { ok(i); ++calls; seen = decltype(i)::value; return "case " + ws(decltype(i)::value); };
            auto const d = [&]() -> std::string { ++defaults; return "default"; };
            auto const got = call(v, f, d);
            check("by value", v, calls, defaults, seen, e);
            if (got != (e ? "case " + ws(v) : "default")) vt::fail("wrong-result", "%s(%s) returned %s", name().c_str(), ws(v).c_str(), got.c_str());
            if (e) {
                reset();
                auto const got2 = call(v, f); // without a default
                check("no default", v, calls, 0, seen, true);
                if (got2 != "case " + ws(v)) vt::fail("wrong-result", "%s(%s) without a default returned %s", name().c_str(), ws(v).c_str(), got2.c_str());
            }
        }
        { // references
            reset();
            static std::array<long, 300> slots;
            static long fallback;
            auto &&got = call(v, [&](auto i) -> long & { ok(i); ++calls; seen = decltype(i)::value; return slots[static_cast<size_t>(Wide(decltype(i)::value) - lo)]; }, [&]() -> long & { ++defaults; return fallback; });
            static_assert(std::is_same_v<decltype(got), long &>);
            check("by reference", v, calls, defaults, seen, e);
            long *want = e ? &slots[static_cast<size_t>(Wide(v) - lo)] : &fallback;
            if (&got != want) vt::fail("wrong-reference", "%s(%s) returned a reference to another object", name().c_str(), ws(v).c_str());
        }
        { // rvalue references
            reset();
            static std::string a, b;
            auto &&got = call(v, [&](auto i) -> std::string && { ok(i); ++calls; seen = decltype(i)::value; return std::move(a); }, [&]() -> std::string && { ++defaults; return std::move(b); });
            static_assert(std::is_same_v<decltype(got), std::string &&>);
            check("by rvalue reference", v, calls, defaults, seen, e);
            if (&got != (e ? &a : &b)) vt::fail("wrong-reference", "%s(%s) returned an rvalue reference to another object", name().c_str(), ws(v).c_str());
        }
        { // void
            reset();
            call(v, [&](auto i) { ok(i); ++calls; seen = decltype(i)::value; }, [&] { ++defaults; });
            check("void", v, calls, defaults, seen, e);
        }
        { // move-only results
            reset();
            auto const got = call(v, [&](auto i) { ok(i); ++calls; seen = decltype(i)::value; return std::make_unique<long>(static_cast<long>(decltype(i)::value)); }, [&] { ++defaults; return std::unique_ptr<long>(); });
            check("move-only", v, calls, defaults, seen, e);
            if ((got != nullptr) != e || (got && *got != static_cast<long>(v))) vt::fail("wrong-result", "%s(%s): move-only result", name().c_str(), ws(v).c_str());
        }
        { // callables passed as rvalues are called as rvalues
            reset();
            long const got = call(v, OnceOnly{&calls, &seen}, DefOnce{&defaults});
            check("rvalue callable", v, calls, defaults, seen, e);
            if (got != (e ? (static_cast<long>(v) ^ 5) : 1234567)) vt::fail("wrong-result", "%s(%s): rvalue callables returned %ld", name().c_str(), ws(v).c_str(), got);
        }
        { // exceptions reach the caller
            reset();
            bool threw = false;
            try {
                call(v, [&](auto i) -> int { ok(i); ++calls; seen = decltype(i)::value; throw Boom{static_cast<long long>(decltype(i)::value)}; }, [&]() -> int { ++defaults; throw Boom{-1}; });
            } catch (Boom const &b) { threw = b.at == (e ? static_cast<long long>(v) : -1); }
            check("throwing", v, calls, defaults, seen, e);
            if (!threw) vt::fail("lost-exception", "%s(%s): the exception of the handler did not arrive", name().c_str(), ws(v).c_str());
        }
        vt::distinct(vt::mix(vt::hash_str(name()), static_cast<uint64_t>(v)));
    }
    static void run(vt::Rng &r) {
        constexpr Wide mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
        auto tryv = [&](Wide v) { if (mn <= v && v <= mx) value(static_cast<T>(v)); };
        Wide const a = lo - 3, b = hi + 3;
        bool const small = b - a < 60;
        for (Wide v = a; v <= b; ++v)
            if (small || v < lo + 2 || v > hi - 4 || r.chance(10)) tryv(v);
        tryv(mn);
        tryv(mx);
        tryv(mn + 1);
        tryv(0);
        for (int k = 0; k < 4; ++k) value(static_cast<T>(r.u64()));
        // usable at compile time
        if constexpr (First != Last) {
            constexpr T c = static_cast<T>(lo);
            constexpr long got = call(c, [](auto i) { return static_cast<long>(decltype(i)::value); }, [] { return -1234567L; });
            if (got != static_cast<long>(c)) vt::fail("wrong-result", "%s(%s) in a constant expression", name().c_str(), ws(c).c_str());
        }
        vt::count("switches");
        if (vt::want_sample("switch")) vt::sample("switch", name());
    }
};

inline void switch_bools(vt::Rng &) {
    for (bool b : {false, true}) {
        int calls = 0, seen = -1;
        static int t, f;
        auto &&got = dtl::switch_bool(b, [&](auto i) -> int & { ++calls; seen = decltype(i)::value; static_assert(std::is_same_v<typename decltype(i)::value_type, bool>); return decltype(i)::value ? t : f; });
        static_assert(std::is_same_v<decltype(got), int &>);
        if (calls != 1 || seen != b || &got != (b ? &t : &f)) vt::fail("wrong-bool", "switch_bool(%d): %d calls, value %d", b, calls, seen);
        bool threw = false;
        try { dtl::switch_bool(b, [&](auto i) { throw Boom{decltype(i)::value}; }); } catch (Boom const &x) { threw = x.at == b; }
        if (!threw) vt::fail("lost-exception", "switch_bool");
        if (dtl::switch_bool(b, [](auto i) { return std::make_unique<int>(decltype(i)::value ? 10 : 20); }) == nullptr) vt::fail("wrong-result", "switch_bool");
        vt::count("switch_bool_calls", 3);
    }
    static_assert(dtl::switch_bool(true, [](auto i) { return decltype(i)::value ? 1 : 2; }) == 1);
}

// ---------------------------------------------------------------- loops
inline std::string join(std::vector<std::string> const &v) {
    std::string s;
    for (size_t i = 0; i < v.size() && i < 40; ++i) s += v[i] + " ";
    return s;
}
inline void same_trace(std::string const &what, std::vector<std::string> const &got, std::vector<std::string> const &want) {
    vt::count("loop_calls", got.size());
    if (got != want) vt::fail("wrong-trace", "%s: calls [%s], should be [%s]", what.c_str(), join(got).c_str(), join(want).c_str());
}
template<class T, T First, T Last> std::vector<std::string> range_trace() {
    std::vector<std::string> w;
    Wide const a = First, b = Last;
    if (a < b) for (Wide v = a; v < b; ++v) w.push_back(ws(v));
    else for (Wide v = a; v > b; --v) w.push_back(ws(v));
    return w;
}
// a function object whose lvalue call may throw while its rvalue call may not
template<class F> struct Mixed {
    F f;
    template<class I> void operator()(I i) & { f(i); }
    template<class I> void operator()(I i) && noexcept { f(i); }
    template<class I> void operator()() & { f(I{}); }
    template<class I> void operator()() && noexcept { f(I{}); }
};
template<class Run> void loop(std::string const &what, std::vector<std::string> const &want, vt::Rng &r, Run const &run) {
    std::vector<std::string> got;
    run([&](std::string s) { got.push_back(std::move(s)); });
    same_trace(what, got, want);
    if (!want.empty()) { // an exception at the k-th call ends the loop and reaches the caller
        size_t const k = r.below(want.size());
        got.clear();
        bool threw = false;
        try {
            run([&](std::string s) {
                if (got.size() == k) throw Boom{static_cast<long long>(k)};
                got.push_back(std::move(s));
            });
        } catch (Boom const &b) { threw = b.at == static_cast<long long>(k); }
        if (!threw) vt::fail("lost-exception", "%s: the exception of call %zu did not arrive", what.c_str(), k);
        same_trace(what + " until an exception", got, std::vector<std::string>(want.begin(), want.begin() + static_cast<long>(k)));
        vt::count("loops_left_by_exception");
    } else {
        vt::count("empty_loops");
    }
    vt::distinct(vt::hash_str(what));
}
template<class T, T First, T Last> void ranges(vt::Rng &r) {
    std::string const name = std::string(typeid(T).name()) + " " + ws(First) + ", " + ws(Last);
    auto const want = range_trace<T, First, Last>();
    auto rec = [](auto const &sink) {
        return [&sink](auto i) {
            static_assert(std::is_same_v<typename decltype(i)::value_type, T>, "loop constants have the type of the bounds");
            sink(ws(decltype(i)::value));
        };
    };
    loop("for_range<" + name + ">", want, r, [&](auto const &sink) { dtl::for_range<First, Last>(rec(sink)); });
    if constexpr (Wide(First) - Last < 40 && Wide(Last) - First < 40) {
    loop("for_range<" + name + "> with an lvalue", want, r, [&](auto const &sink) { auto f = rec(sink); dtl::for_range<First, Last>(f); });
    loop("for_range<" + name + "> with a const lvalue", want, r, [&](auto const &sink) { auto const f = rec(sink); dtl::for_range<First, Last>(f); });
    loop("for_range<" + name + "> with a mixed function object", want, r, [&](auto const &sink) { dtl::for_range<First, Last>(Mixed{rec(sink)}); });
    }
    std::vector<std::string> got;
    using Seq = dtl::make_integer_sequence<T, First, Last>;
    auto take = [&]<T... xs>(std::integer_sequence<T, xs...>) { (got.push_back(ws(xs)), ...); };
    take(Seq{});
    same_trace("make_integer_sequence<" + name + ">", got, want);
    if constexpr (std::is_same_v<T, size_t>) {
        static_assert(std::is_same_v<dtl::make_index_sequence<First, Last>, Seq>);
        vt::count("index_sequences");
    }
    got.clear();
    auto takel = [&]<class... Is>(dtl::type_list::type_list<Is...>) {
        static_assert((std::is_same_v<Is, std::integral_constant<T, Is::value>> && ...));
        (got.push_back(ws(Is::value)), ...);
    };
    takel(dtl::make_integral_constant_list<T, First, Last>{});
    same_trace("make_integral_constant_list<" + name + ">", got, want);
    if constexpr (First < Last) vt::count("ascending_ranges");
    else if constexpr (First > Last) vt::count("descending_ranges");
    if (vt::want_sample("range")) vt::sample("range", name + ": " + join(want));
}
template<auto... xs> void values(vt::Rng &r, std::vector<std::string> const &want) {
    auto rec = [](auto const &sink) {
        return [&sink](auto i) {
            using V = typename decltype(i)::value_type;
            if constexpr (requires { i.value.text; }) sink("obj:" + std::to_string(i.value.text));
            else sink(std::string(typeid(V).name()) + ":" + ws(static_cast<Wide>(i.value)));
        };
    };
    loop("for_values", want, r, [&](auto const &sink) { dtl::for_values<xs...>(rec(sink)); });
    loop("for_values with an lvalue", want, r, [&](auto const &sink) { auto f = rec(sink); dtl::for_values<xs...>(f); });
    loop("for_values with a mixed function object", want, r, [&](auto const &sink) { dtl::for_values<xs...>(Mixed{rec(sink)}); });
    vt::distinct(vt::hash_str(join(want)));
}
struct Text { int text; };
template<class... Ts> void types(vt::Rng &r) {
    std::vector<std::string> want{std::string(typeid(std::type_identity<Ts>).name())...};
    auto rec = [](auto const &sink) { return [&sink]<class T>() { sink(typeid(std::type_identity<T>).name()); }; };
    loop("for_types", want, r, [&](auto const &sink) { dtl::for_types<Ts...>(rec(sink)); });
    loop("for_types with an lvalue", want, r, [&](auto const &sink) { auto f = rec(sink); dtl::for_types<Ts...>(f); });
    vt::distinct(vt::hash_str(join(want)));
}
