// C17: the range algorithms against their direct (quadratic) definitions, over every range category and calling form.
// Guarded iterators watch for reads and increments outside the input; inputs are compared with a copy afterwards.
#include "vt.hpp"
#include <dice/template-library/ranges.hpp>
#include <cmath>
#include <compare>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <ranges>
#include <span>
#include <sstream>

namespace dtl = dice::template_library;

// ---------------------------------------------------------------- element types
struct Rec { // equality, order and hash look at the key only; the payload tells occurrences apart
    int key = 0, payload = 0;
    bool flag() const { return key % 2 == 0; }
    friend bool operator==(Rec const &a, Rec const &b) { return a.key == b.key; }
    friend std::weak_ordering operator<=>(Rec const &a, Rec const &b) { return a.key <=> b.key; }
};
template<> struct std::hash<Rec> { size_t operator()(Rec const &r) const { return static_cast<size_t>(r.key % 4); } };
struct LessOnly { // not hashable, not comparable for equality: forces the ordered set
    int key = 0, payload = 0;
    friend bool operator<(LessOnly const &a, LessOnly const &b) { return a.key < b.key; }
    friend bool operator>(LessOnly const &a, LessOnly const &b) { return b.key < a.key; }
    friend bool operator<=(LessOnly const &a, LessOnly const &b) { return !(b.key < a.key); }
    friend bool operator>=(LessOnly const &a, LessOnly const &b) { return !(a.key < b.key); }
};
struct Mod { // for all_distinct with a custom predicate: hash consistent with equality mod 8
    int v = 0;
    friend bool operator==(Mod const &, Mod const &) = default;
};
template<> struct std::hash<Mod> { size_t operator()(Mod const &m) const { return static_cast<size_t>(m.v % 4); } };

template<class T> bool same(T const &a, T const &b) {
    if constexpr (requires { a.payload; }) return a.key == b.key && a.payload == b.payload;
    else if constexpr (std::is_floating_point_v<T>) return std::bit_cast<std::conditional_t<sizeof(T) == 8, uint64_t, uint32_t>>(a) == std::bit_cast<std::conditional_t<sizeof(T) == 8, uint64_t, uint32_t>>(b);
    else return a == b;
}
template<class T> bool eq(T const &a, T const &b) {
    if constexpr (std::is_same_v<T, LessOnly>) return !(a < b) && !(b < a);
    else return a == b;
}
template<class T> std::string show(std::vector<T> const &v) {
    std::ostringstream o;
    for (auto &x : v) {
        if constexpr (requires { x.payload; }) o << x.key << '#' << x.payload << ' ';
        else if constexpr (std::is_same_v<T, Mod>) o << x.v << ' ';
        else o << x << ' ';
    }
    return "[" + o.str() + "]";
}

#include "shapes.hpp"

[[maybe_unused]] static uint64_t g_forms;
#define EXPECT(form, got, want)                                                                                           \
    do {                                                                                                                   \
        ++g_forms;                                                                                                         \
        if ((got) != (want)) vt::fail("wrong-result", "%s, %s over %s of %s: wrong answer", algo, form, shape, show(v).c_str()); \
    } while (0)

// a terminal algorithm in all its forms; Need: required range capabilities
template<unsigned Need, bool Pipe = true, class T, class A, class... Ps>
void terminal(char const *algo, std::vector<T> const &v, A const &a, bool want, Ps... ps) {
    shapes(v, [&]<unsigned Caps>(char const *shape, auto make) {
        if constexpr ((Caps & Need) == Need) {
            EXPECT("range form", a(make(), ps...), want);
            {
                auto &&r = make();
                EXPECT("lvalue range form", a(r, ps...), want);
            }
            {
                auto &&r = make();
                auto f = std::ranges::begin(r);
                auto l = std::ranges::end(r);
                EXPECT("iterator form", a(std::move(f), l, ps...), want);
            }
            if constexpr (Pipe) {
                auto pipe = a(ps...);
                EXPECT("pipe form", make() | pipe, want);
                {
                    auto &&r = make();
                    EXPECT("pipe form, second use", r | pipe, want);
                }
                EXPECT("pipe form with a temporary closure", make() | a(ps...), want);
            }
        }
    });
}
template<class T> void empties(std::vector<T> const &v) {
    bool const e = v.empty();
    auto one = [&](char const *algo, auto const &a, bool want) {
        shapes(v, [&]<unsigned Caps>(char const *shape, auto make) {
            if constexpr ((Caps & FWD) == FWD) {
                EXPECT("range form", a(make()), want);
                auto &&r = make();
                EXPECT("lvalue range form", a(r), want);
                EXPECT("iterator form", a(std::ranges::begin(r), std::ranges::end(r)), want);
                EXPECT("pipe form", make() | a, want);
                EXPECT("lvalue pipe form", r | a, want);
            }
        });
    };
    one("empty", dtl::empty, e);
    one("non_empty", dtl::non_empty, !e);
}
// a lazy view: elements must be exactly the source elements at the wanted positions
template<class T, class MakeView>
void lazy(char const *algo, std::vector<T> const &v, std::vector<size_t> const &keep, MakeView const &mk) {
    shapes(v, [&]<unsigned Caps>(char const *shape, auto make) {
        if constexpr ((Caps & COPYIT) == COPYIT) {
            auto check = [&](char const *form, auto &&view) {
                ++g_forms;
                size_t i = 0;
                auto end = std::ranges::end(view);
                for (auto it = std::ranges::begin(view); it != end; ++it, ++i) {
                    auto &&x = *it;
                    if (i >= keep.size()) {
                        vt::fail("wrong-elements", "%s, %s over %s of %s: more than %zu elements", algo, form, shape, show(v).c_str(), keep.size());
                        return;
                    }
                    if (!same(static_cast<T const &>(x), v[keep[i]])) {
                        vt::fail("wrong-elements", "%s, %s over %s of %s: element %zu is wrong", algo, form, shape, show(v).c_str(), i);
                        return;
                    }
                }
                if (i != keep.size()) vt::fail("wrong-elements", "%s, %s over %s of %s: %zu elements, should be %zu", algo, form, shape, show(v).c_str(), i, keep.size());
            };
            mk(make, check);
            if constexpr ((Caps & FWD) == FWD) {
                auto &&r = make();
                if constexpr (std::is_lvalue_reference_v<decltype(make())>) {
                    mk([&]() -> auto & { return r; }, [&](char const *form, auto &&view) {
                        check(form, view); // walked twice
                        check(form, view);
                        auto moved = std::move(view);
                        check(form, moved);
                    });
                }
            }
        }
    });
}

// ---------------------------------------------------------------- per element type
template<class T> void all_algos(std::vector<T> const &v, vt::Rng &r, std::vector<T> const &alphabet) {
    size_t const n = v.size();
    empties(v);
    // predicates
    T const pivot = alphabet[r.below(alphabet.size())];
    auto pred = [pivot](T const &x) { return eq(x, pivot); };
    auto pred_and_not = [pivot](T const &x) { return !eq(x, pivot); };
    for (int neg = 0; neg < 2; ++neg) {
        size_t k = 0;
        for (auto &x : v) k += neg ? pred_and_not(x) : pred(x);
        if (neg) {
            terminal<0>("all_of", v, dtl::all_of, k == n, pred_and_not);
            terminal<0>("any_of", v, dtl::any_of, k != 0, pred_and_not);
            terminal<0>("none_of", v, dtl::none_of, k == 0, pred_and_not);
        } else {
            terminal<0>("all_of", v, dtl::all_of, k == n, pred);
            terminal<0>("any_of", v, dtl::any_of, k != 0, pred);
            terminal<0>("none_of", v, dtl::none_of, k == 0, pred);
        }
    }
    if constexpr (std::is_same_v<T, Rec>) {
        size_t k = 0;
        for (auto &x : v) k += x.flag();
        terminal<0>("all_of(member)", v, dtl::all_of, k == n, &Rec::flag);
        terminal<0>("any_of(member)", v, dtl::any_of, k != 0, &Rec::flag);
        terminal<0>("none_of(member)", v, dtl::none_of, k == 0, &Rec::flag);
    }
    // all_equal
    if constexpr (!std::is_same_v<T, LessOnly>) {
        bool all = true;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j) all &= v[i] == v[j];
        terminal<COPYIT>("all_equal", v, dtl::all_equal, all);
        vt::count(all ? "answers_true" : "answers_false");
    }
    {
        auto p = [](T const &a, T const &b) {
            if constexpr (requires { a.key; }) return a.key % 2 == b.key % 2;
            else if constexpr (std::is_same_v<T, std::string>) return a.size() == b.size();
            else if constexpr (std::is_same_v<T, double>) return std::signbit(a) == std::signbit(b);
            else if constexpr (std::is_same_v<T, Mod>) return a.v % 3 == b.v % 3;
            else return a % 2 == b % 2;
        };
        bool all = true;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j) all &= p(v[i], v[j]);
        terminal<COPYIT>("all_equal(pred)", v, dtl::all_equal, all, p);
    }
    // all_distinct
    {
        bool dist = true;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j) dist &= !eq(v[i], v[j]);
        terminal<0>("all_distinct", v, dtl::all_distinct, dist);
        vt::count(dist ? "answers_true" : "answers_false");
    }
    if constexpr (std::is_same_v<T, Mod>) {
        auto p = [](Mod const &a, Mod const &b) { return a.v % 8 == b.v % 8; };
        bool dist = true;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j) dist &= !p(v[i], v[j]);
        terminal<0>("all_distinct(pred)", v, dtl::all_distinct, dist, p);
    }
    // unique
    {
        std::vector<size_t> keep;
        for (size_t i = 0; i < n; ++i) {
            bool first = true;
            for (size_t j = 0; j < i; ++j) first &= !eq(v[i], v[j]);
            if (first) keep.push_back(i);
        }
        lazy("unique", v, keep, [](auto make, auto check) {
            check("function form", dtl::unique(make()));
            check("pipe form", make() | dtl::unique);
        });
        if (keep.size() != n) vt::count("duplicates_removed");
    }
    // remove_element
    if constexpr (!std::is_same_v<T, LessOnly>) {
        std::vector<size_t> keep;
        for (size_t i = 0; i < n; ++i)
            if (!(v[i] == pivot)) keep.push_back(i);
        lazy("remove_element", v, keep, [&](auto make, auto check) {
            auto closure = dtl::remove_element(pivot);
            check("pipe form", make() | closure);
            check("temporary closure", make() | dtl::remove_element(pivot));
        });
    }
    if constexpr (std::is_same_v<T, Rec> || std::is_same_v<T, LessOnly>) {
        std::vector<size_t> keep;
        for (size_t i = 0; i < n; ++i)
            if (!(v[i].key < pivot.key)) keep.push_back(i); // asymmetric predicate: (element, value)
        lazy("remove_element(pred)", v, keep, [&](auto make, auto check) {
            check("pipe form", make() | dtl::remove_element(pivot, [](T const &a, T const &b) { return a.key < b.key; }));
        });
        std::vector<size_t> keep2;
        for (size_t i = 0; i < n; ++i)
            if (v[i].key != 1) keep2.push_back(i);
        lazy("remove_element(other type)", v, keep2, [&](auto make, auto check) {
            check("pipe form", make() | dtl::remove_element(1L, [](T const &a, long b) { return a.key == b; }));
        });
    }
}

// single-pass elements are copied by the algorithm, so only order matters: sortedness with comparators and projections
template<class T> void sorted_algos(std::vector<T> const &v) {
    size_t const n = v.size();
    auto ascending = [&](auto lt) {
        bool ok = true;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j) ok &= static_cast<bool>(lt(v[i], v[j]));
        vt::count(ok ? "sorted_true" : "sorted_false");
        return ok;
    };
    if constexpr (std::totally_ordered<T>) {
        terminal<0>("is_sorted_unique", v, dtl::is_sorted_unique, ascending(std::less<>{}));
        terminal<0>("is_sorted_unique(greater)", v, dtl::is_sorted_unique, ascending(std::greater<>{}), std::ranges::greater{});
    }
    if constexpr (std::is_same_v<T, LessOnly>) {
        auto lt = [](LessOnly const &a, LessOnly const &b) { return a < b; };
        terminal<0>("is_sorted_unique(lambda)", v, dtl::is_sorted_unique, ascending(lt), lt);
    }
    if constexpr (requires(T t) { t.payload; }) {
        terminal<0>("is_sorted_unique(less, member)", v, dtl::is_sorted_unique, ascending([](T const &a, T const &b) { return a.payload < b.payload; }), std::ranges::less{}, &T::payload);
        terminal<0>("is_sorted_unique(greater, member)", v, dtl::is_sorted_unique, ascending([](T const &a, T const &b) { return a.payload > b.payload; }), std::ranges::greater{}, &T::payload);
        auto neg = [](T const &a) { return -a.key; };
        terminal<0>("is_sorted_unique(less, lambda)", v, dtl::is_sorted_unique, ascending([](T const &a, T const &b) { return -a.key < -b.key; }), std::ranges::less{}, neg);
    }
    if constexpr (std::is_same_v<T, std::string>) {
        terminal<0>("is_sorted_unique(less, size)", v, dtl::is_sorted_unique, ascending([](T const &a, T const &b) { return a.size() < b.size(); }), std::ranges::less{}, &std::string::size);
    }
}

// ---------------------------------------------------------------- lexicographic comparison
template<class T, class U, class C, class P1, class P2>
void lex_case(char const *algo, std::vector<T> const &v, std::vector<U> const &w, C cmp, P1 p1, P2 p2, bool defaults) {
    using Ord = std::remove_cvref_t<decltype(cmp(std::invoke(p1, v[0]), std::invoke(p2, w[0])))>;
    Ord want = v.size() < w.size() ? Ord(std::strong_ordering::less) : v.size() > w.size() ? Ord(std::strong_ordering::greater) : Ord(std::strong_ordering::equal);
    for (size_t i = 0; i < std::min(v.size(), w.size()); ++i) {
        Ord o = cmp(std::invoke(p1, v[i]), std::invoke(p2, w[i]));
        if (o != 0) {
            want = o;
            break;
        }
    }
    vt::count(want == 0 ? "lex_equal" : want < 0 ? "lex_less" : want > 0 ? "lex_greater" : "lex_unordered");
    auto both = [&](char const *shape, auto makev, auto makew) {
        auto expect = [&](char const *form, auto got) {
            ++g_forms;
            static_assert(std::is_same_v<decltype(got), Ord>);
            if (!(got == want) && !(got != 0 && want != 0 && !(got < 0) && !(got > 0) && !(want < 0) && !(want > 0)))
                vt::fail("wrong-order", "%s, %s over %s of %s and %s: wrong answer", algo, form, shape, show(v).c_str(), show(w).c_str());
        };
        expect("range form", dtl::lexicographical_compare_three_way(makev(), makew(), cmp, p1, p2));
        {
            auto &&a = makev();
            auto &&b = makew();
            expect("iterator form", dtl::lexicographical_compare_three_way(std::ranges::begin(a), std::ranges::end(a), std::ranges::begin(b), std::ranges::end(b), cmp, p1, p2));
        }
        if constexpr (std::is_same_v<P1, std::identity> && std::is_same_v<P2, std::identity> && std::is_same_v<C, std::compare_three_way>) {
            expect("range form, defaults", dtl::lexicographical_compare_three_way(makev(), makew()));
            auto &&a = makev();
            auto &&b = makew();
            expect("iterator form, defaults", dtl::lexicographical_compare_three_way(std::ranges::begin(a), std::ranges::end(a), std::ranges::begin(b), std::ranges::end(b)));
        }
    };
    (void) defaults;
    // every shape on the left against three on the right, and the other way round
    shapes(v, [&]<unsigned Caps>(char const *shape, auto make) {
        if constexpr (std::is_same_v<C, std::compare_three_way> && std::is_same_v<T, int>) both(shape, make, [&]() -> std::vector<U> const & { return w; });
        U *p = new U[w.size()];
        std::copy(w.begin(), w.end(), p);
        Src<U> s{p, w.size()};
        size_t pos = 0;
        both(shape, make, [&] { pos = 0; return OnceRange<U, OnceIt<U>>{&s, &pos}; });
        both(shape, make, [&] { return GuardRange<U>{&s}; });
        delete[] p;
    });
    shapes(w, [&]<unsigned Caps>(char const *shape, auto make) {
        T *p = new T[v.size()];
        std::copy(v.begin(), v.end(), p);
        Src<T> s{p, v.size()};
        size_t pos = 0;
        both(shape, [&] { pos = 0; return OnceRange<T, OnceMoveIt<T>>{&s, &pos}; }, make);
        if constexpr (std::is_same_v<T, int>) both(shape, [&] { return GuardRange<T>{&s}; }, make);
        delete[] p;
    });
}
struct RevCmp { // weak order: compares the last digit, backwards
    std::weak_ordering operator()(int a, int b) const { return b % 10 <=> a % 10; }
};

template<class T> std::vector<T> draw(vt::Rng &r, std::vector<T> const &alphabet, size_t maxn) {
    std::vector<T> v(r.below(maxn + 1));
    int mode = static_cast<int>(r.below(4));
    for (auto &x : v) x = mode == 0 ? alphabet[r.below(std::min<size_t>(2, alphabet.size()))] : r.pick(const_cast<std::vector<T> &>(alphabet));
    if (mode == 1) std::stable_sort(v.begin(), v.end(), [](T const &a, T const &b) {
        if constexpr (std::is_same_v<T, Mod>) return a.v < b.v;
        else if constexpr (std::is_same_v<T, double>) return std::bit_cast<int64_t>(a) < std::bit_cast<int64_t>(b);
        else return a < b;
    });
    if (mode == 2 && r.coin()) { // nearly strictly ascending: alphabet prefix, possibly one defect
        v.assign(alphabet.begin(), alphabet.begin() + static_cast<long>(r.below(alphabet.size() + 1)));
        if (!v.empty() && r.coin()) v[r.below(v.size())] = alphabet[r.below(alphabet.size())];
        if (r.chance(30)) std::reverse(v.begin(), v.end());
    }
    if constexpr (requires(T t) { t.payload; }) {
        int k = 0;
        int pm = static_cast<int>(r.below(3));
        for (auto &x : v) x.payload = pm == 0 ? k++ : pm == 1 ? 100 - k++ : static_cast<int>(r.below(1000));
    }
    return v;
}
template<class T> void note(std::vector<T> const &v) {
    vt::distinct(vt::hash_str(std::string(typeid(T).name()) + show(v)));
    if (v.size() > 3) vt::sample(std::string("sequence of ") + typeid(T).name(), show(v));
}

static void vt_main() {
#if PART == 0
    // every sequence over {0,1,2} up to length 6
    [[maybe_unused]] std::vector<int> abc{0, 1, 2};
    vt::run("small-ints", 365, [&](vt::Rng &r, uint64_t i) {
        // three sequences per case, numbered in base 3 by length
        for (uint64_t k = 3 * i; k < 3 * i + 3; ++k) {
            uint64_t m = k, len = 0, block = 1;
            while (m >= block) { m -= block; block *= 3; ++len; if (len > 7) return; }
            std::vector<int> v;
            for (uint64_t d = 0; d < len; ++d) { v.push_back(static_cast<int>(m % 3)); m /= 3; }
            all_algos(v, r, abc);
            sorted_algos(v);
            note(v);
            vt::count("exhaustive_sequences");
        }
    }, false);
#endif
#if PART == 4
    // every pair of sequences over {0,1} up to length 3
    vt::run("lex-small", 225, [&](vt::Rng &, uint64_t i) {
        auto seq = [](uint64_t m) {
            uint64_t len = 0, block = 1;
            while (m >= block) { m -= block; block *= 2; ++len; }
            std::vector<int> v;
            for (uint64_t d = 0; d < len; ++d) { v.push_back(static_cast<int>(m % 2)); m /= 2; }
            return v;
        };
        auto v = seq(i % 15), w = seq(i / 15);
        lex_case("lexicographical_compare_three_way", v, w, std::compare_three_way{}, std::identity{}, std::identity{}, true);
        note(v);
    }, false);
#endif
    std::vector<int> ints{std::numeric_limits<int>::min(), -7, -1, 0, 1, 2, 3, 5, 8, 13, 21, 100, std::numeric_limits<int>::max()};
    std::vector<std::string> strs{"", "a", "aa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "ab", "abc", "b", "ba", std::string("b\0a", 3), "z"};
    std::vector<Rec> recs;
    std::vector<LessOnly> lts;
    std::vector<Mod> mods;
    for (int k = 0; k < 9; ++k) recs.push_back({k, 0}), lts.push_back({k, 0});
    for (int k = 0; k < 40; ++k) mods.push_back({k});
    double const nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
    std::vector<double> dbls{-inf, -2.5, -0.0, 0.0, 1e-300, 1.0, 3.25, inf, nan, -nan};
#if PART == 0
    vt::run("ints", 30, [&](vt::Rng &r, uint64_t) { auto v = draw(r, ints, 20); all_algos(v, r, ints); sorted_algos(v); note(v); });
#endif
#if PART == 1
    vt::run("strings", 30, [&](vt::Rng &r, uint64_t) { auto v = draw(r, strs, 12); all_algos(v, r, strs); sorted_algos(v); note(v); });
#endif
#if PART == 2
    vt::run("records", 30, [&](vt::Rng &r, uint64_t) { auto v = draw(r, recs, 12); all_algos(v, r, recs); sorted_algos(v); note(v); });
#endif
#if PART == 3
    vt::run("less-only", 30, [&](vt::Rng &r, uint64_t) { auto v = draw(r, lts, 12); all_algos(v, r, lts); sorted_algos(v); note(v); });
#endif
#if PART == 3
    vt::run("mods", 30, [&](vt::Rng &r, uint64_t) { auto v = draw(r, mods, 9); all_algos(v, r, mods); note(v); });
#endif
#if PART == 1
    vt::run("doubles", 30, [&](vt::Rng &r, uint64_t) { auto v = draw(r, dbls, 10); all_algos(v, r, dbls); note(v); });
#endif
#if PART == 4
    vt::run("lex", 60, [&](vt::Rng &r, uint64_t) {
        auto two = [&](auto const &al, size_t n) {
            auto a = draw(r, al, n), b = draw(r, al, n);
            if (r.coin()) { // a common prefix
                b = a;
                if (!b.empty() && r.coin()) b[r.below(b.size())] = al[r.below(al.size())];
                if (r.chance(30)) b.resize(r.below(b.size() + 1));
                else if (r.chance(30)) b.push_back(al[r.below(al.size())]);
            }
            if (r.coin()) std::swap(a, b);
            note(a);
            return std::pair{a, b};
        };
        switch (r.below(7)) {
            case 0: { auto [a, b] = two(ints, 10); lex_case("lex(int)", a, b, std::compare_three_way{}, std::identity{}, std::identity{}, true); break; }
            case 1: { auto [a, b] = two(strs, 8); lex_case("lex(string)", a, b, std::compare_three_way{}, std::identity{}, std::identity{}, true); break; }
            case 2: { auto [a, b] = two(dbls, 8); lex_case("lex(double)", a, b, std::compare_three_way{}, std::identity{}, std::identity{}, true); break; }
            case 3: { auto [a, b] = two(recs, 8); lex_case("lex(record)", a, b, std::compare_three_way{}, std::identity{}, std::identity{}, true); break; }
            case 4: { auto [a, b] = two(recs, 8); lex_case("lex(record, projections)", a, b, std::compare_three_way{}, &Rec::key, [](Rec const &x) { return x.key + x.payload % 2; }, false); break; }
            case 5: {
                auto [a, b] = two(recs, 8);
                std::vector<int> c;
                for (auto &x : b) c.push_back(x.key + static_cast<int>(10 * r.below(2)));
                lex_case("lex(record/int, reversed)", a, c, RevCmp{}, &Rec::key, std::identity{}, false);
                break;
            }
            default: {
                auto a = draw(r, ints, 8);
                std::vector<double> b;
                for (int x : a) b.push_back(r.chance(10) ? nan : x);
                if (r.chance(30)) b.push_back(1);
                else if (!b.empty() && r.chance(30)) b.pop_back();
                lex_case("lex(int/double)", a, b, [](int x, double y) { return static_cast<double>(x) <=> y; }, std::identity{}, std::identity{}, false);
                break;
            }
        }
    });
#endif
    vt::count("answers_compared", g_forms);
}
VT_MAIN
