// C27: helpers for the programs written by gen_meta.py.  The generator computes every expected result with a model of its own (Python
// lists of types, a table of qualifiers, decimal numbers); the program compares at run time, so that a wrong answer is an observation.
#pragma once
#include "ledger.hpp"
#include "vt.hpp"
#include <array>
#include <concepts>
#include <dice/template-library/lazy_conditional.hpp>
#include <dice/template-library/macro_util.hpp>
#ifdef META_NO_BUILTINS // as on compilers without them
#undef DICE_COMPILER_HAS_BUILTIN
#define DICE_COMPILER_HAS_BUILTIN(x) 0
#endif
#include <dice/template-library/stdint.hpp>
#include <dice/template-library/type_list.hpp>
#include <dice/template-library/type_traits.hpp>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <variant>

namespace dtl = dice::template_library;
namespace tl = dice::template_library::type_list;
template<class... T> using TL = tl::type_list<T...>;

struct S0 {};
struct S1 { long a, b; };
struct S2 : S0 {};
struct Inc;
struct Abs { virtual void f() = 0; };
struct Mo { Mo(Mo &&) = default; };
enum En { en_a };
enum class Ec : char {};
template<class T> struct box { using inner = T; };
template<class... T> struct many {};
template<class A, class B> struct two {};
struct Own { int a; char b; }; // tuple-like
namespace std {
template<> struct tuple_size<Own> : integral_constant<size_t, 3> {};
template<size_t I> struct tuple_element<I, Own> { using type = box<integral_constant<size_t, I>>; };
}
template<class T> inline constexpr int w = 0; // a number for every type of the pool

template<class T> constexpr char const *name() { return __PRETTY_FUNCTION__; }
inline std::string cut(std::string s) {
    auto p = s.find("T = ");
    return p == std::string::npos ? s : s.substr(p + 4, s.size() - p - 5);
}
template<class Want, class Got> void same(char const *what) {
    if (!std::is_same_v<std::type_identity<Want>, std::type_identity<Got>>)
        vt::fail("meta:type", "%s gives %s, expected %s", what, cut(name<Got>()).c_str(), cut(name<Want>()).c_str());
    vt::count("type_results");
    vt::distinct(vt::hash_str(what));
}
template<class Want, class Got> void value(char const *what, Want want, Got const &got) {
    if (!std::is_same_v<Want, Got> || want != got) vt::fail("meta:value", "%s gives %lld (%s), expected %lld (%s)", what, static_cast<long long>(got), cut(name<Got>()).c_str(), static_cast<long long>(want), cut(name<Want>()).c_str());
    vt::count("values");
    vt::distinct(vt::hash_str(what));
}
template<class Fn> concept has_type = requires { typename Fn::type; };
template<class Fn> concept has_value = requires { Fn::value; };
template<class Fn> void no_type(char const *what) {
    if (has_type<Fn> || !std::is_same_v<tl::opt_t<Fn>, tl::nullopt>) vt::fail("meta:absent", "%s has a type", what);
    vt::count("absent_results");
}
template<class Fn> void no_value(char const *what) {
    if (has_value<Fn> || !std::is_same_v<std::remove_cv_t<decltype(tl::opt_v<Fn>)>, tl::nullopt>) vt::fail("meta:absent", "%s has a value", what);
    else if constexpr (!has_value<Fn>) if (!(tl::opt_v<Fn> == tl::nullopt{})) vt::fail("meta:absent", "%s: nullopt", what);
    vt::count("absent_results");
}

// ------------------------------------------------------------------------------------------------ callbacks
struct heavier { // a predicate with a value, handed over as a template argument
    int than;
    template<class T> constexpr bool operator()(std::type_identity<T>) const { return w<T> > than; }
};
template<int K, int C> struct residue {
    template<class T> constexpr std::bool_constant<w<T> % K == C> operator()(std::type_identity<T>) const { return {}; }
};
struct truthy { // anything that converts to bool
    int mask;
    struct result {
        int v;
        constexpr operator bool() const { return v != 0; }
    };
    template<class T> constexpr result operator()(std::type_identity<T>) const { return {w<T> & mask}; }
};
struct counted_int {
    int mask;
    template<class T> constexpr int operator()(std::type_identity<T>) const { return w<T> & mask; }
};

template<class T> void const *tid() {
    static char const here = 0;
    return &here;
}
template<class... T> std::vector<void const *> tids(TL<T...>) { return {tid<T>()...}; }
struct Comma { // what a callback returns must not matter
    template<class X> friend Comma operator,(Comma, X &&) { vt::fail("meta:for_each", "the results of the calls are combined"); return {}; }
    template<class X> friend Comma operator,(X &&, Comma) { vt::fail("meta:for_each", "the results of the calls are combined"); return {}; }
};
template<class F> struct Member { // callable as an lvalue only
    F &f;
    template<class T> void operator()(std::type_identity<T> t) & { f(t); }
    template<class T> void operator()(std::type_identity<T>) && = delete;
};
template<class L, class Want> void run_for_each(vt::Rng &r, char const *what) {
    auto const want = tids(Want{});
    std::vector<void const *> got;
    size_t const stop = (r.below(3) == 0) ? r.below(want.size() + 2) : size_t(-1);
    auto record = [&]<class T>(std::type_identity<T>) {
        if (got.size() == stop) throw ledger::Boom{};
        got.push_back(tid<T>());
    };
    bool threw = false;
    try {
        switch (r.below(5)) {
            case 0: tl::for_each<L>(record); break;
            case 1: tl::for_each<L>(std::as_const(record)); break;
            case 2: tl::for_each<L>([&, keep = std::make_unique<int>(1)]<class T>(std::type_identity<T> t) mutable { ++*keep, record(t); }); break;
            case 3: {
                Member<decltype(record)> m{record};
                tl::for_each<L>(m);
                break;
            }
            default: tl::for_each<L>([&]<class T>(std::type_identity<T> t) { return record(t), w<T>; }); break;
        }
    } catch (ledger::Boom const &) {
        threw = true;
    }
    auto expect = want;
    if (stop < expect.size()) expect.resize(stop);
    if (got != expect || threw != (stop < want.size())) vt::fail("meta:for_each", "%s: %zu calls (thrown %d), expected %zu of %zu", what, got.size(), threw, expect.size(), want.size());
    vt::count("callback_calls", got.size());
    if (threw) vt::count("loops_left_by_exception");
}
template<class L, class Want> void run_fold(vt::Rng &r, char const *what) {
    auto const want = tids(Want{});
    ledger::reset();
    {
        using Acc = ledger::Obj<1, ledger::no_copy>;
        long n = 0;
        int const start = static_cast<int>(r.below(100));
        size_t const stop = (r.below(3) == 0) ? r.below(want.size() + 2) : size_t(-1);
        std::vector<void const *> got;
        int expect = start;
        for (size_t i = 0; i < want.size(); ++i) expect = (expect * 3 + static_cast<int>(i)) % 1000;
        bool threw = false;
        try {
            Acc res = tl::fold<L>(Acc(start), [&]<class T>(Acc a, std::type_identity<T>) {
                if (got.size() == stop) throw ledger::Boom{};
                got.push_back(tid<T>());
                return Acc((a.get() * 3 + static_cast<int>(n++)) % 1000);
            });
            if (res.get() != expect) vt::fail("meta:fold", "%s: %d, expected %d", what, res.get(), expect);
        } catch (ledger::Boom const &) {
            threw = true;
        }
        auto calls = want;
        if (stop < calls.size()) calls.resize(stop);
        if (got != calls || threw != (stop < want.size())) vt::fail("meta:fold", "%s: %zu calls, expected %zu", what, got.size(), calls.size());
        if (threw) vt::count("loops_left_by_exception");
        // the accumulator is handed on, with a conversion of the callback's result
        std::string s = tl::fold<L>(std::string("<"), [](std::string a, auto t) -> std::string { return std::move(a) + std::to_string(w<typename decltype(t)::type>) + ","; });
        long sum = tl::fold<L>(0L, [](long a, auto t) { return static_cast<short>(a + w<typename decltype(t)::type>); });
        std::string ws = "<";
        long wsum = 0;
        [&]<class... T>(TL<T...>) { ((ws += std::to_string(w<T>) + ",", wsum += w<T>), ...); }(Want{});
        if (s != ws || sum != wsum) vt::fail("meta:fold", "%s: %s %ld, expected %s %ld", what, s.c_str(), sum, ws.c_str(), wsum);
        constexpr long compile_time = tl::fold<L>(0L, [](long a, auto t) { return a + w<typename decltype(t)::type>; });
        if (compile_time != wsum) vt::fail("meta:fold", "%s at compile time: %ld", what, compile_time);
    }
    ledger::expect_live(0, what);
    vt::count("folds");
}

// ------------------------------------------------------------------------------------------------ providers
template<class T> struct id { using type = T; };
template<class T> struct derived_id : id<T> {};
template<class T> struct poison { static_assert(sizeof(T) == 0, "a branch that is not selected was instantiated"); using type = T; };
template<class T> struct poison_member { using type = typename T::no_such_member; };
template<class T> struct never; // incomplete
template<class T> struct typeless {};

// ------------------------------------------------------------------------------------------------ zero-sized types
template<class T> struct as_member { long pad; [[no_unique_address]] T t; };
template<class T> struct without { alignas(alignof(T)) long pad; };
template<class T> void zst(char const *what, bool want) {
    bool const got = dtl::is_zst_v<T>;
    if (got != want || dtl::is_zst<T>::value != got || std::is_base_of_v<std::true_type, dtl::is_zst<T>> != got) vt::fail("meta:is_zst", "is_zst<%s> is %d", what, got);
    vt::count("zero_sized_types", want);
    vt::count("other_types", !want);
    vt::distinct(vt::hash_str(what));
}
template<class R, class F, class... A> void strict(char const *what) {
    bool want = false;
    if constexpr (std::is_invocable_v<F, A...>) want = std::is_same_v<R, std::invoke_result_t<F, A...>>;
    if (dtl::is_strict_invocable_r_v<R, F, A...> != want || dtl::is_strict_invocable_r<R, F, A...>::value != want) vt::fail("meta:strict", "is_strict_invocable_r<%s> is %d", what, !want);
    vt::count(want ? "strictly_invocable" : "not_strictly_invocable");
    vt::distinct(vt::hash_str(what));
}
