// C23: drivers for standard_layout_tuple, integral_template_tuple and the tuple algorithms.  gen_tuples.py writes a program that
// instantiates them with type lists and index ranges drawn from the seed.  Oracle: a std::tuple (or array) of the same values that
// receives the same operations, addresses, and a layout model computed here from sizeof/alignof only.
#pragma once
#include "ledger.hpp"
#include "vt.hpp"
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <array>
#include <cmath>
#include <limits>
#include <string>
#include <tuple>

namespace dtl = dice::template_library;

struct EmptyA { friend auto operator<=>(EmptyA const &, EmptyA const &) = default; };
struct EmptyB { friend auto operator<=>(EmptyB const &, EmptyB const &) = default; };
struct Three { char c[3] = {0, 0, 0}; friend auto operator<=>(Three const &, Three const &) = default; };
struct alignas(16) Wide16 { int v = 0; Wide16() = default; Wide16(int x) : v{x} {} friend auto operator<=>(Wide16 const &, Wide16 const &) = default; };
struct Two { // constructible from two arguments
    int a = 0;
    std::string b;
    Two() = default;
    Two(int x, std::string y) : a{x}, b{std::move(y)} {}
    friend auto operator<=>(Two const &, Two const &) = default;
};
using L1 = ledger::Obj<1, 0>;
using L2 = ledger::Obj<2, 0>;
using MO = ledger::Obj<3, ledger::no_copy>;
using Words = std::string;

inline std::string long_text(vt::Rng &r, int k) { return std::string(r.coin() ? 1 : 40, static_cast<char>('a' + k)); }
template<class T> T make(vt::Rng &r) {
    int const k = static_cast<int>(r.below(3));
    if constexpr (std::is_empty_v<T>) return T{};
    else if constexpr (std::is_same_v<T, std::string>) return long_text(r, k);
    else if constexpr (std::is_same_v<T, Three>) return Three{{static_cast<char>(r.below(2)), static_cast<char>(k), static_cast<char>(r.below(2))}};
    else if constexpr (std::is_same_v<T, Two>) return Two{k, long_text(r, k)};
    else if constexpr (std::is_same_v<T, bool>) return r.coin();
    else if constexpr (std::is_floating_point_v<T>) return k == 0 && r.chance(30) ? std::numeric_limits<T>::quiet_NaN() : static_cast<T>(k) + static_cast<T>(0.5);
    else if constexpr (std::is_integral_v<T>) return r.chance(20) ? std::numeric_limits<T>::max() : r.chance(20) ? std::numeric_limits<T>::min() : static_cast<T>(k);
    else return T(k);
}
template<class T> bool same(T const &a, T const &b) {
    if constexpr (std::is_floating_point_v<T>) return std::memcmp(&a, &b, std::min<size_t>(sizeof(T), 8)) == 0;
    else return a == b;
}
template<class T> std::string show(T const &a) {
    if constexpr (std::is_empty_v<T>) return "empty";
    else if constexpr (std::is_same_v<T, std::string>) return a.substr(0, 1) + "*" + std::to_string(a.size());
    else if constexpr (std::is_same_v<T, Three>) return vt::fmt("%d.%d.%d", a.c[0], a.c[1], a.c[2]);
    else if constexpr (std::is_same_v<T, Two>) return std::to_string(a.a) + a.b.substr(0, 1);
    else if constexpr (std::is_arithmetic_v<T>) return std::to_string(a);
    else return std::to_string(a.v);
}
template<class T> char const *tn() {
    if constexpr (std::is_same_v<T, std::string>) return "string";
    else return typeid(T).name();
}
template<class... Ts> std::string names() {
    std::string s = "<";
    ((s += tn<Ts>(), s += ' '), ...);
    return s + ">";
}
template<class T, class... Ts> constexpr size_t count_of = (size_t{std::is_same_v<T, Ts>} + ... + 0);

// layout of nested {T first; rest} structures
template<size_t N> struct Layout { std::array<size_t, N> off{}; };
template<size_t N> constexpr Layout<N> layout(std::array<size_t, N> const &size, std::array<size_t, N> const &align, size_t from, size_t to) {
    Layout<N> l;
    size_t pos = 0;
    for (size_t i = from; i < to; ++i) {
        size_t a = 1;
        for (size_t j = i; j < to; ++j) a = std::max(a, align[j]);
        pos = (pos + a - 1) / a * a;
        l.off[i] = pos;
        pos += size[i];
    }
    return l;
}

template<size_t N, class F> void with_index(size_t i, F &&f) {
    [&]<size_t... I>(std::index_sequence<I...>) { ((I == i ? (f(std::integral_constant<size_t, I>{}), 0) : 0), ...); }(std::make_index_sequence<N>{});
}

template<class... Ts> struct Slt {
    static constexpr size_t N = sizeof...(Ts);
    using T = dtl::standard_layout_tuple<Ts...>;
    using M = std::tuple<Ts...>;
    template<size_t I> using E = std::tuple_element_t<I, M>;
    static constexpr bool copyable = (std::is_copy_constructible_v<Ts> && ...);
    static constexpr auto seq = std::make_index_sequence<N>{};
    static constexpr std::array<size_t, N> sizes{sizeof(Ts)...};
    static constexpr std::array<size_t, N> aligns{alignof(Ts)...};

    static_assert(T::size() == N && std::tuple_size_v<T> == N && std::tuple_size_v<T const> == N);
    static_assert(std::is_standard_layout_v<T> == (std::is_standard_layout_v<Ts> && ...));
    static_assert((std::is_copy_constructible_v<T>) == copyable && std::is_move_constructible_v<T>);
    template<size_t I> static consteval bool types() {
        using X = E<I>;
        static_assert(std::is_same_v<std::tuple_element_t<I, T>, X>);
        static_assert(std::is_same_v<decltype(std::declval<T &>().template get<I>()), X &>);
        static_assert(std::is_same_v<decltype(std::declval<T const &>().template get<I>()), X const &>);
        static_assert(std::is_same_v<decltype(std::declval<T>().template get<I>()), X &&>);
        static_assert(std::is_same_v<decltype(std::declval<T const>().template get<I>()), X const &&>);
        if constexpr (count_of<X, Ts...> == 1) {
            static_assert(std::is_same_v<decltype(std::declval<T &>().template get<X>()), X &>);
            static_assert(std::is_same_v<decltype(std::declval<T const &>().template get<X>()), X const &>);
            static_assert(std::is_same_v<decltype(std::declval<T>().template get<X>()), X &&>);
        }
        return true;
    }
    static_assert([]<size_t... I>(std::index_sequence<I...>) { return (types<I>() && ...); }(seq));

    static std::string show_t(T const &t) { return show_i(t, seq); }
    template<size_t... I> static std::string show_i(T const &t, std::index_sequence<I...>) {
        std::string s = "(";
        ((s += show(t.template get<I>()), s += ' '), ...);
        return s + ")";
    }
    static std::string show_m(M const &m) {
        std::string s = "(";
        std::apply([&](auto const &...x) { ((s += show(x), s += ' '), ...); }, m);
        return s + ")";
    }

    static void check(T const &t, M const &m, char const *what) {
        vt::count("tuples_compared");
        bool ok = true;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((ok = ok && same<E<I>>(t.template get<I>(), std::get<I>(m))), ...);
            (by_type<I>(t), ...);
        }(seq);
        if (!ok) vt::fail("tup:wrong-value", "%s %s: %s, expected %s", names<Ts...>().c_str(), what, show_t(t).c_str(), show_m(m).c_str());
    }
    template<size_t I> static void by_type(T const &t) {
        if constexpr (count_of<E<I>, Ts...> == 1) {
            if (static_cast<void const *>(&t.template get<E<I>>()) != static_cast<void const *>(&t.template get<I>())) vt::fail("tup:get-by-type", "%s: get<%s>() is not get<%zu>()", names<Ts...>().c_str(), tn<E<I>>(), I);
        }
    }
    static void addresses(T &t) {
        std::array<char const *, N> p{};
        [&]<size_t... I>(std::index_sequence<I...>) { ((p[I] = reinterpret_cast<char const *>(&t.template get<I>())), ...); }(seq);
        auto const *b = reinterpret_cast<char const *>(&t);
        std::string bad;
        for (size_t i = 0; i < N; ++i) {
            if (p[i] < b || p[i] + sizes[i] > b + sizeof(T)) bad = "outside the tuple";
            if (reinterpret_cast<uintptr_t>(p[i]) % aligns[i]) bad = "misaligned";
            if (i && p[i] < p[i - 1] + sizes[i - 1]) bad = "not after its predecessor";
        }
        if (N && std::is_standard_layout_v<T> && p[0] != b) bad = "not at the start of the standard-layout tuple";
        vt::count("layouts_checked");
        if (!bad.empty()) vt::fail("tup:layout", "%s: an element is %s", names<Ts...>().c_str(), bad.c_str());
    }
    // may a view of [o, o+c) alias at all, i.e. has the smaller tuple the same element offsets?
    static constexpr bool aligned_view(size_t o, size_t c) {
        auto full = layout<N>(sizes, aligns, 0, N), part = layout<N>(sizes, aligns, o, o + c);
        for (size_t i = o; i < o + c; ++i)
            if (full.off[i] - full.off[o] != part.off[i]) return false;
        return true;
    }
    template<size_t O, size_t C> static void subtuple(T &t) {
        auto sub_of = []<size_t... I>(std::index_sequence<I...>) { return std::type_identity<dtl::standard_layout_tuple<E<O + I>...>>{}; };
        using S = typename decltype(sub_of(std::make_index_sequence<C>{}))::type;
        static_assert(std::is_same_v<decltype(t.template subtuple<O, C>()), S &>);
        static_assert(std::is_same_v<decltype(std::as_const(t).template subtuple<O, C>()), S const &>);
        static_assert(std::is_same_v<decltype(std::move(t).template subtuple<O, C>()), S &&>);
        bool ok = true;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((ok = ok && static_cast<void const *>(&t.template subtuple<O, C>().template get<I>()) == static_cast<void const *>(&t.template get<O + I>())), ...);
            ((ok = ok && static_cast<void const *>(&std::as_const(t).template subtuple<O, C>().template get<I>()) == static_cast<void const *>(&t.template get<O + I>())), ...);
        }(std::make_index_sequence<C>{});
        if constexpr (aligned_view(O, C)) {
            vt::count("subtuples");
            if (!ok) vt::fail("tup:subtuple", "%s: subtuple<%zu, %zu>() does not alias the elements", names<Ts...>().c_str(), O, C);
        } else {
            // known finding (one instance is always generated): the smaller tuple has other offsets, no view can alias all elements
            vt::count("subtuples_misaligned");
            static bool reported = false;
            if constexpr (std::is_same_v<T, dtl::standard_layout_tuple<char, char, int>> && O == 0 && C == 2)
                if (!ok && !std::exchange(reported, true)) vt::fail("tup:subtuple-char-char-of-char-char-int", "%s: subtuple<%zu, %zu>() does not alias the elements, the alignment of the view is smaller", names<Ts...>().c_str(), O, C);
        }
    }
    template<size_t O, size_t... C> static void subtuples_at(T &t, std::index_sequence<C...>) { (subtuple<O, C>(t), ...); }
    static void subtuples(T &t) {
        if constexpr ((std::is_standard_layout_v<Ts> && ...))
            [&]<size_t... O>(std::index_sequence<O...>) { (subtuples_at<O>(t, std::make_index_sequence<N - O + 1>{}), ...); }(seq);
    }
    template<size_t... I> static M random_model(vt::Rng &r, std::index_sequence<I...>) { return M{make<E<I>>(r)...}; }
    static M random(vt::Rng &r) {
        if constexpr (N == 0) return M{};
        else return random_model(r, seq);
    }
    static M dup(M const &m) {
        return std::apply([](Ts const &...x) { return M{one(x)...}; }, m);
    }
    template<class X> static X one(X const &x) {
        if constexpr (std::is_copy_constructible_v<X>) return x;
        else return X(x.v);
    }
    static T build(M const &m, int how) {
        vt::count("constructions");
        return std::apply([&](Ts const &...x) {
            if constexpr (copyable) {
                if (how == 0) return T{x...};
                if (how == 1) return T(x...);
                if (how == 2) return T{dtl::individual_construct, x...};
            }
            if (how == 3) return T{dtl::individual_construct, one(x)...};
            return T{one(x)...};
        }, m);
    }
    static bool ord_eq(auto a, auto b) {
        if constexpr (!std::is_same_v<decltype(a), decltype(b)>) return false;
        else return a == b || (!(a < 0) && !(a > 0) && !(a == 0) && !(b < 0) && !(b > 0) && !(b == 0));
    }
    static void compare(T const &a, T const &b, M const &x, M const &y) {
        vt::count("comparisons");
        bool const ok = (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && ord_eq(a <=> b, x <=> y);
        if (!ok) vt::fail("tup:compare", "%s: comparing %s with %s", names<Ts...>().c_str(), show_m(x).c_str(), show_m(y).c_str());
    }
    struct Stop {};
    template<class Tup> static void each(Tup &&t, M const &m, char const *what, vt::Rng &r) {
        std::vector<std::string> trace, want;
        std::apply([&](auto const &...x) { (want.push_back(std::string(tn<std::remove_cvref_t<decltype(x)>>()) + show(x)), ...); }, m);
        vt::count("algorithm_runs");
        auto cat = [&](std::vector<std::string> const &v) { std::string s; for (auto &e : v) s += e + ' '; return s; };
        if constexpr (N > 0) {
            size_t n = 0;
            std::array<size_t, N + 1> cells{};
            auto f = [&]<class X>(X &&x) -> size_t & {
                trace.push_back(std::string(tn<std::remove_cvref_t<X>>()) + show(x));
                return cells[n++ % (N + 1)];
            };
            size_t &last = dtl::tuple_for_each(std::forward<Tup>(t), f);
            if (trace != want) vt::fail("tup:for-each", "%s tuple_for_each over %s visited %s, expected %s", names<Ts...>().c_str(), what, cat(trace).c_str(), cat(want).c_str());
            if (&last != &cells[N - 1]) vt::fail("tup:for-each-result", "%s tuple_for_each over %s does not return the result of the last call", names<Ts...>().c_str(), what);
            size_t const stop = r.below(N);
            trace.clear();
            try {
                dtl::tuple_for_each(std::forward<Tup>(t), [&]<class X>(X &&x) {
                    if (trace.size() == stop) throw Stop{};
                    trace.push_back(std::string(tn<std::remove_cvref_t<X>>()) + show(x));
                });
                vt::fail("tup:for-each-exception", "%s: an exception of call %zu was swallowed", names<Ts...>().c_str(), stop);
            } catch (Stop) {
                vt::count("visits_left_by_exception");
                if (trace != std::vector<std::string>(want.begin(), want.begin() + static_cast<long>(stop))) vt::fail("tup:for-each-exception", "%s: calls after the exception of call %zu", names<Ts...>().c_str(), stop);
            }
        } else {
            dtl::tuple_for_each(std::forward<Tup>(t), [&](auto const &) { trace.push_back("x"); });
            if (!trace.empty()) vt::fail("tup:for-each", "%s tuple_for_each over %s visited %zu elements", names<Ts...>().c_str(), what, trace.size());
        }
        // folds: a non-commutative operation, the initial value in every form
        auto op = [](std::string acc, auto const &x) { return "(" + acc + "." + show(x) + ")"; };
        std::string expect = "init-which-does-not-fit-the-small-buffer";
        std::string const init = expect;
        std::string mut = expect;
        std::apply([&](auto const &...x) { ((expect = "(" + expect + "." + show(x) + ")"), ...); }, m);
        std::string const f1 = dtl::tuple_fold(t, std::string(init), op), f2 = dtl::tuple_fold(t, init, op), f3 = dtl::tuple_fold(t, mut, op);
        if (f1 != expect || f2 != expect || f3 != expect || mut != init) vt::fail("tup:fold", "%s tuple_fold over %s: %s / %s / %s, expected %s", names<Ts...>().c_str(), what, f1.c_str(), f2.c_str(), f3.c_str(), expect.c_str());
    }
    template<class Tup> static void by_types(char const *what) {
        std::string want, trace;
        ((want += tn<Ts>(), want += ' '), ...);
        int cells[N + 1] = {};
        size_t n = 0;
        if constexpr (N > 0) {
            int &last = dtl::tuple_type_for_each<Tup>([&]<class X>() -> int & { trace += tn<X>(); trace += ' '; return cells[n++ % (N + 1)]; });
            if (&last != &cells[N - 1]) vt::fail("tup:type-for-each-result", "%s: not the result of the last call", what);
        } else {
            dtl::tuple_type_for_each<Tup>([&]<class X>() { trace += tn<X>(); trace += ' '; });
        }
        vt::count("algorithm_runs");
        if (trace != want) vt::fail("tup:type-for-each", "tuple_type_for_each<%s%s> visited %s", what, names<Ts...>().c_str(), trace.c_str());
        std::string const init = "initial value that is longer than the small buffer";
        std::string mut = init, expect = init;
        ((expect = "(" + expect + tn<Ts>() + ")"), ...);
        auto op = []<class X>(std::string acc) { return "(" + acc + tn<X>() + ")"; };
        std::string const f1 = dtl::tuple_type_fold<Tup>(std::string(init), op), f2 = dtl::tuple_type_fold<Tup>(init, op), f3 = dtl::tuple_type_fold<Tup>(mut, op);
        if (f1 != expect || f2 != expect || f3 != expect) vt::fail("tup:type-fold", "tuple_type_fold<%s%s>: %s / %s / %s", what, names<Ts...>().c_str(), f1.c_str(), f2.c_str(), f3.c_str());
    }

    static void history(vt::Rng &r) {
        M m = random(r), m2 = random(r);
        int const how = static_cast<int>(r.below(5));
        T t = build(m, how), t2 = build(m2, static_cast<int>(r.below(5)));
        check(t, m, "after construction");
        check(t2, m2, "after construction");
        addresses(t);
        subtuples(t);
        if constexpr (N > 0) {
            if (r.chance(50)) { // value initialization
                T z{};
                M zm{};
                check(z, zm, "value-initialized");
            }
        }
        std::string log;
        for (int op = 0; op < 14; ++op) {
            int const k = static_cast<int>(r.below(8));
            log += static_cast<char>('0' + k);
            char what[40];
            snprintf(what, sizeof what, "after history %s", log.c_str());
            if constexpr (N > 0) {
                if (k <= 2) {
                    with_index<N>(r.below(N), [&](auto i) {
                        using X = E<i>;
                        X v = make<X>(r);
                        std::get<i>(m) = one(v);
                        if constexpr (count_of<X, Ts...> == 1) {
                            if (k == 1) { t.template get<X>() = one(v); return; }
                        }
                        t.template get<i>() = one(v);
                    });
                } else if (k == 3) { // through a view of the rest
                    size_t const o = r.below(N);
                    if constexpr ((std::is_standard_layout_v<Ts> && ...))
                        with_index<N>(o, [&](auto i) {
                            auto v = make<E<i>>(r);
                            std::get<i>(m) = one(v);
                            t.template subtuple<i, N - i>().template get<0>() = one(v);
                        });
                } else if (k == 4) { // move an element out and put another one in
                    with_index<N>(r.below(N), [&](auto i) {
                        E<i> const x = std::move(t).template get<i>();
                        if (!same<E<i>>(x, std::get<i>(m))) vt::fail("tup:wrong-value", "%s element %zu moved out: %s", names<Ts...>().c_str(), static_cast<size_t>(i), show(x).c_str());
                        t.template get<i>() = one(x);
                    });
                }
            }
            if (k == 5) {
                m = dup(m2);
                if constexpr (copyable) t = t2;
                else t = build(m2, 4);
            } else if (k == 6) {
                T moved{std::move(t)};
                check(moved, m, "move-constructed");
                t = std::move(moved);
            } else if (k == 7) {
                if constexpr (copyable) {
                    T c1{t}, c2{std::as_const(t)}, c3(t), c4 = t;
                    T const k5 = t;
                    T c5{std::move(k5)};
                    check(c1, m, "copied from an lvalue");
                    check(c2, m, "copied from a const lvalue");
                    check(c3, m, "copied from an lvalue");
                    check(c4, m, "copied from an lvalue");
                    check(c5, m, "copied from a const rvalue");
                    c1 = c2;
                    check(c1, m, "copy-assigned");
                    T &self = t;
                    t = self;
                    vt::count("copies");
                }
            }
            check(t, m, what);
            check(t2, m2, "while another tuple changed");
        }
        compare(t, t2, m, m2);
        compare(t, t, m, m);
        if (N && r.coin()) {
            m2 = dup(m);
            t2 = build(m, 4);
            if constexpr (N > 0) {
                with_index<N>(r.below(N), [&](auto i) { auto v = make<E<i>>(r); std::get<i>(m2) = one(v); t2.template get<i>() = one(v); });
            }
            compare(t, t2, m, m2);
        }
        each(t, m, "an lvalue", r);
        each(std::as_const(t), m, "a const lvalue", r);
        each(std::move(t), m, "an rvalue", r);
        each(m, m, "a std::tuple", r);
        if constexpr (N == 2) {
            if constexpr (copyable) {
                std::pair<E<0>, E<1>> p{std::get<0>(m), std::get<1>(m)};
                each(p, m, "a std::pair", r);
            }
            by_types<std::pair<E<0>, E<1>>>("std::pair");
        }
        if constexpr (N > 1 && copyable) {
            if constexpr (count_of<E<0>, Ts...> == N) {
                std::array<E<0>, N> a = std::apply([](auto const &...x) { return std::array<E<0>, N>{x...}; }, m);
                each(a, m, "a std::array", r);
                each(std::as_const(a), m, "a const std::array", r);
            }
        }
        if constexpr (N == 1) bind1(t, m);
        if constexpr (N == 2) bind2(t, m, r);
        if constexpr (N == 3) bind3(t, m, r);
        uint64_t h = vt::hash_str(names<Ts...>());
        vt::distinct(vt::mix(h, vt::hash_str(log + show_m(m))));
        if (vt::want_sample("tuple")) vt::sample("tuple", names<Ts...>() + " history " + log + " -> " + show_m(m) + " vs " + show_m(m2));
    }
    static void bind1(T &t, M const &m) {
        auto &[a] = t;
        if (!same<E<0>>(a, std::get<0>(m)) || static_cast<void const *>(&a) != &t.template get<0>()) vt::fail("tup:binding", "%s", names<Ts...>().c_str());
    }
    static void bind2(T &t, M &m, vt::Rng &r) {
        auto &[a, b] = t;
        auto const &[c, d] = t;
        b = make<E<1>>(r);
        std::get<1>(m) = one(b);
        if (static_cast<void const *>(&a) != &t.template get<0>() || static_cast<void const *>(&b) != &t.template get<1>() || static_cast<void const *>(&c) != &t.template get<0>() || static_cast<void const *>(&d) != &t.template get<1>()) vt::fail("tup:binding", "%s", names<Ts...>().c_str());
        check(t, m, "written through a structured binding");
    }
    static void bind3(T &t, M &m, vt::Rng &r) {
        auto &[a, b, c] = t;
        a = make<E<0>>(r);
        std::get<0>(m) = one(a);
        if (static_cast<void const *>(&b) != &t.template get<1>() || static_cast<void const *>(&c) != &t.template get<2>()) vt::fail("tup:binding", "%s", names<Ts...>().c_str());
        check(t, m, "written through a structured binding");
    }
    static void run(vt::Rng &r) {
        for (int i = 0; i < 24; ++i) {
            history(r);
            ledger::expect_live(0, names<Ts...>().c_str());
        }
        by_types<T>("slt");
        by_types<M>("std::tuple");
        vt::count("type_lists");
    }
};

// uniform construction: every element is built from the same arguments
template<class... Ts> struct Uniform {
    using T = dtl::standard_layout_tuple<Ts...>;
    template<class... A> static void with(A const &...args) {
        std::tuple<Ts...> const want{Ts{args...}...};
        Slt<Ts...>::check(T{dtl::uniform_construct, args...}, want, "uniform, lvalues");
        Slt<Ts...>::check(T(dtl::uniform_construct, A(args)...), want, "uniform, rvalues");
        std::tuple<A...> mut{args...};
        std::apply([&](auto &...x) {
            Slt<Ts...>::check(T{dtl::uniform_construct, x...}, want, "uniform, mutable lvalues");
            if (!(std::tuple<A...>{x...} == std::tuple<A...>{args...})) vt::fail("tup:uniform-changes-arguments", "%s", names<Ts...>().c_str());
        }, mut);
        vt::count("uniform_constructions", 3);
    }
    static void run(vt::Rng &r) {
        for (int i = 0; i < 10; ++i) {
            int const k = static_cast<int>(r.below(100));
            with();
            if constexpr ((std::is_constructible_v<Ts, int const &> && ...)) with(k);
            if constexpr ((std::is_same_v<Ts, Two> && ...)) with(k, std::string(60, 'u'));
            if constexpr ((std::is_same_v<Ts, std::string> && ...)) with(std::string(60, 'v'));
            if constexpr (((std::is_same_v<Ts, L1> || std::is_same_v<Ts, L2>) && ...)) with(k, 7);
        }
        ledger::expect_live(0, "uniform");
        vt::distinct(vt::hash_str("uniform" + names<Ts...>()));
    }
};

inline void empty_tuple(vt::Rng &) {
    using T = dtl::standard_layout_tuple<>;
    T a, b{dtl::individual_construct}, c{dtl::uniform_construct}, d{dtl::uniform_construct, 4, "x"};
    if (!(a == b) || a != c || a < d || (a <=> d) != 0 || T::size() != 0 || &a.subtuple<0, 0>() != &a) vt::fail("tup:empty", "the empty tuple");
}

// ---- integral_template_tuple
template<auto I> struct Num { // size and alignment depend on the index
    static constexpr auto index = I;
    std::conditional_t<(I % 3 == 0), long, std::conditional_t<(I % 3 == 1 || I % 3 == -1), char, short>> v = 0;
    Num() = default;
    Num(int x) : v(static_cast<decltype(v)>(x)) {}
    friend auto operator<=>(Num const &, Num const &) = default;
};
template<auto I> struct Own : ledger::Obj<9, 0> { // one class per index in the ledger
    static constexpr auto index = I;
    using ledger::Obj<9, 0>::Obj;
};
template<auto I> struct Fixed { // all elements have the same layout
    static constexpr auto index = I;
    int v = 0;
    Fixed() = default;
    Fixed(int x) : v{x} {}
    friend auto operator<=>(Fixed const &, Fixed const &) = default;
};

template<class IX, IX First, IX Last, template<IX> class T> struct Itt {
    using Tup = dtl::integral_template_tuple<First, Last, T>;
    static constexpr __int128 first = First, last = Last;
    static constexpr bool asc = first < last;
    static constexpr size_t N = static_cast<size_t>(asc ? last - first : first - last);
    static constexpr IX at(size_t k) { return static_cast<IX>(asc ? first + static_cast<__int128>(k) : first - static_cast<__int128>(k)); }
    template<size_t K> using E = T<at(K)>;
    static constexpr auto seq = std::make_index_sequence<N>{};
    static std::string name() { return vt::fmt("integral_template_tuple<%s %lld, %lld>", typeid(IX).name(), static_cast<long long>(First), static_cast<long long>(Last)); }
    using Model = std::array<int, N>;
    static_assert(Tup::size() == N);
    template<size_t K> static consteval bool types() {
        using X = E<K>;
        static_assert(std::is_same_v<typename Tup::template value_type<at(K)>, X>);
        static_assert(std::is_same_v<decltype(std::declval<Tup &>().template get<at(K)>()), X &>);
        static_assert(std::is_same_v<decltype(std::declval<Tup const &>().template get<at(K)>()), X const &>);
        static_assert(std::is_same_v<decltype(std::declval<Tup>().template get<at(K)>()), X &&>);
        return true;
    }
    static_assert([]<size_t... K>(std::index_sequence<K...>) { return (types<K>() && ...); }(seq));

    static void check(Tup const &t, Model const &m, char const *what) {
        vt::count("tuples_compared");
        std::string got, want;
        [&]<size_t... K>(std::index_sequence<K...>) {
            ((got += std::to_string(t.template get<at(K)>().v), got += ' '), ...);
            ((want += std::to_string(m[K]), want += ' '), ...);
        }(seq);
        if (got != want) vt::fail("tup:itt-wrong-value", "%s %s: %s, expected %s", name().c_str(), what, got.c_str(), want.c_str());
    }
    template<size_t... K> static Tup build(Model const &m, int how, std::index_sequence<K...>) {
        if (how == 0) return Tup{E<K>(m[K])...};
        return Tup{dtl::individual_construct, m[K]...};
    }
    template<class V> static void visit(V &&t, Model const &m, char const *what) {
        vt::count("visits");
        std::map<__int128, int> seen;
        std::string bad;
        long calls = 0;
        if constexpr (N > 0) {
            long const res = std::forward<V>(t).visit([&, acc = 0L](auto &&x) mutable -> long {
                using X = std::remove_cvref_t<decltype(x)>;
                static_assert(std::is_const_v<std::remove_reference_t<decltype(x)>> == std::is_const_v<std::remove_reference_t<V>>);
                if (!seen.emplace(X::index, x.v).second) bad = "visited twice";
                ++calls;
                return acc += x.v;
            });
            long want = 0;
            for (int v : m) want += v;
            if (res != want) bad = "result " + std::to_string(res) + ", expected " + std::to_string(want);
        } else {
            std::forward<V>(t).visit([&](auto &&) { ++calls; });
        }
        if (calls != static_cast<long>(N)) bad = std::to_string(calls) + " calls";
        for (size_t k = 0; k < N; ++k) {
            auto it = seen.find(at(k));
            if (it == seen.end() || it->second != m[k]) bad = "element not visited with its value";
        }
        if (!bad.empty()) vt::fail("tup:itt-visit", "%s visiting %s: %s", name().c_str(), what, bad.c_str());
    }
    static constexpr std::array<size_t, N> sizes = []<size_t... K>(std::index_sequence<K...>) { return std::array<size_t, N>{sizeof(E<K>)...}; }(seq);
    static constexpr std::array<size_t, N> aligns = []<size_t... K>(std::index_sequence<K...>) { return std::array<size_t, N>{alignof(E<K>)...}; }(seq);
    static constexpr bool aligned_view(size_t o, size_t c) {
        auto full = layout<N>(sizes, aligns, 0, N), part = layout<N>(sizes, aligns, o, o + c);
        for (size_t i = o; i < o + c; ++i)
            if (full.off[i] - full.off[o] != part.off[i]) return false;
        return true;
    }
    template<size_t O, size_t C> static void sub(Tup &t) {
        static constexpr IX a = at(O), b = static_cast<IX>(asc ? first + static_cast<__int128>(O + C) : first - static_cast<__int128>(O + C));
        using S = dtl::integral_template_tuple<a, b, T>;
        static_assert(std::is_same_v<decltype(t.template subtuple<a, b>()), S &>);
        static_assert(std::is_same_v<decltype(std::as_const(t).template subtuple<a, b>()), S const &>);
        static_assert(std::is_same_v<decltype(std::move(t).template subtuple<a, b>()), S &&>);
        if constexpr (aligned_view(O, C)) {
            bool ok = true;
            [&]<size_t... K>(std::index_sequence<K...>) {
                ((ok = ok && static_cast<void const *>(&t.template subtuple<a, b>().template get<at(O + K)>()) == static_cast<void const *>(&t.template get<at(O + K)>())), ...);
                ((ok = ok && static_cast<void const *>(&std::as_const(t).template subtuple<a, b>().template get<at(O + K)>()) == static_cast<void const *>(&t.template get<at(O + K)>())), ...);
            }(std::make_index_sequence<C>{});
            vt::count("subtuples");
            if (!ok) vt::fail("tup:itt-subtuple", "%s: subtuple<%lld, %lld>() does not alias the elements", name().c_str(), static_cast<long long>(a), static_cast<long long>(b));
        }
    }
    template<size_t O, size_t... C> static void subs_at(Tup &t, std::index_sequence<C...>) { (sub<O, C>(t), ...); }
    static void subs(Tup &t) {
        if constexpr (std::is_standard_layout_v<Tup> && N <= 9)
            [&]<size_t... O>(std::index_sequence<O...>) { (subs_at<O>(t, std::make_index_sequence<N - O + 1>{}), ...); }(seq);
    }
    static void run(vt::Rng &r) {
        for (int i = 0; i < 12; ++i) {
            Model m{}, m2{};
            for (auto &x : m) x = static_cast<int>(r.below(3));
            for (auto &x : m2) x = static_cast<int>(r.below(3));
            Tup z{};
            check(z, Model{}, "value-initialized");
            if constexpr (N > 0) {
                Tup t = build(m, static_cast<int>(r.below(2)), seq), t2 = build(m2, 0, seq);
                check(t, m, "after construction");
                Model u;
                u.fill(5);
                check(Tup{dtl::uniform_construct, 5}, u, "uniform");
                for (int k = 0; k < 10; ++k) {
                    switch (r.below(5)) {
                        case 0:
                        case 1:
                            with_index<N>(r.below(N), [&](auto j) { t.template get<at(j)>() = E<j>(k); m[j] = k; });
                            break;
                        case 2: {
                            Tup c{t}, d = std::as_const(t), e{std::move(c)};
                            check(d, m, "copied");
                            check(e, m, "moved");
                            t = d;
                            break;
                        }
                        case 3: t = t2; m = m2; break;
                        case 4: {
                            t2 = std::move(t);
                            check(t2, m, "move-assigned");
                            m2 = m;
                            t = t2;
                            break;
                        }
                    }
                    check(t, m, "in a history");
                    check(t2, m2, "while another tuple changed");
                }
                if ((t == t2) != (m == m2) || (t != t2) != (m != m2) || (t < t2) != (m < m2) || (t >= t2) != (m >= m2) || (t <=> t2) != (m <=> m2)) vt::fail("tup:itt-compare", "%s", name().c_str());
                visit(t, m, "an lvalue");
                visit(std::as_const(t), m, "a const lvalue");
                visit(std::move(t), m, "an rvalue");
                subs(t);
                uint64_t h = vt::hash_str(name());
                for (int x : m) h = vt::mix(h, static_cast<uint64_t>(x));
                vt::distinct(h);
            } else {
                Tup y{};
                if (z != y || (z <=> y) != 0) vt::fail("tup:itt-compare", "%s: empty tuples differ", name().c_str());
                visit(z, m, "an empty tuple");
            }
        }
        ledger::expect_live(0, name().c_str());
        vt::count(N == 0 ? "empty_index_ranges" : asc ? "ascending_index_ranges" : "descending_index_ranges");
        if (vt::want_sample("integral_template_tuple")) vt::sample("integral_template_tuple", name());
    }
};
