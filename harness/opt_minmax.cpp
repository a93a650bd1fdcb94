// C18: opt_min / opt_max / opt_minmax and their element variants against a direct definition, over every range shape and calling form.
#include "vt.hpp"
#include <dice/template-library/opt_minmax.hpp>
#include <optional>
#include <string>

namespace dtl = dice::template_library;

struct Rec { // the order looks at the key only; the payload tells equivalent values apart
    int key = 0, payload = 0;
    friend bool operator==(Rec const &a, Rec const &b) { return a.key == b.key; }
    friend std::weak_ordering operator<=>(Rec const &a, Rec const &b) { return a.key <=> b.key; }
};
inline bool same(Rec const &a, Rec const &b) { return a.key == b.key && a.payload == b.payload; }
inline bool same(int a, int b) { return a == b; }
inline bool same(double a, double b) { return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b); }
inline bool same(std::string const &a, std::string const &b) { return a == b; }
template<class T> bool same(std::optional<T> const &a, std::optional<T> const &b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); }
inline std::string show1(Rec const &r) { return std::to_string(r.key) + "#" + std::to_string(r.payload); }
inline std::string show1(int r) { return std::to_string(r); }
inline std::string show1(double r) { return std::to_string(r); }
inline std::string show1(std::string const &r) { return r; }
template<class T> std::string show1(std::optional<T> const &r) { return r ? show1(*r) : "-"; }
template<class T> std::string show(std::vector<T> const &v) {
    std::string s = "[";
    for (auto &x : v) s += show1(x) + " ";
    return s + "]";
}
#include "shapes.hpp"

template<class T> struct Unopt { using type = T; };
template<class T> struct Unopt<std::optional<T>> { using type = T; };
template<class T> T const *val(T const &x) { return &x; }
template<class T> T const *val(std::optional<T> const &x) { return x ? &*x : nullptr; }

static uint64_t g_forms;
template<class T, class C, class... D>
void elements(char const *what, std::vector<T> const &v, C cmp, D... def) { // def: empty for the default comparator
    using V = typename Unopt<T>::type;
    V const *lo = nullptr, *hi = nullptr;
    size_t present = 0, ties = 0;
    for (auto &x : v) {
        V const *p = val(x);
        if (!p) continue;
        ++present;
        // first element that nothing is smaller/larger than
        bool is_lo = true, is_hi = true;
        for (auto &y : v)
            if (V const *q = val(y)) {
                if (cmp(*q, *p)) is_lo = false;
                if (cmp(*p, *q)) is_hi = false;
                if (q != p && !cmp(*q, *p) && !cmp(*p, *q)) ++ties;
            }
        if (is_lo && !lo) lo = p;
        if (is_hi && !hi) hi = p;
    }
    vt::count(present ? "present_results" : "absent_results");
    if (ties) vt::count("inputs_with_ties");
    if (present != v.size()) vt::count("inputs_with_absent_values");
    auto one = [&](char const *form, char const *shape, auto const &got, V const *want, char const *algo) {
        ++g_forms;
        if (got.has_value() != (want != nullptr)) vt::fail("wrong-presence", "%s(%s), %s over %s of %s: %s", algo, what, form, shape, show(v).c_str(), got ? "a value" : "nullopt");
        else if (want && !same(*got, *want)) vt::fail("wrong-value", "%s(%s), %s over %s of %s: %s, should be %s", algo, what, form, shape, show(v).c_str(), show1(*got).c_str(), show1(*want).c_str());
    };
    auto mm = [&](char const *form, char const *shape, auto const &got) {
        ++g_forms;
        if (got.has_value() != (lo != nullptr)) vt::fail("wrong-presence", "opt_minmax(%s), %s over %s of %s: %s", what, form, shape, show(v).c_str(), got ? "a value" : "nullopt");
        else if (lo && (!same(got->min, *lo) || !same(got->max, *hi)))
            vt::fail("wrong-value", "opt_minmax(%s), %s over %s of %s: %s..%s, should be %s..%s", what, form, shape, show(v).c_str(), show1(got->min).c_str(), show1(got->max).c_str(), show1(*lo).c_str(), show1(*hi).c_str());
    };
    shapes(v, [&]<unsigned Caps>(char const *shape, auto make) {
        auto forms = [&](auto const &algo, auto const &judge) {
            judge("range form", shape, algo(make(), def...));
            {
                auto &&r = make();
                judge("lvalue range form", shape, algo(r, def...));
            }
            {
                auto &&r = make();
                auto f = std::ranges::begin(r);
                judge("iterator form", shape, algo(std::move(f), std::ranges::end(r), def...));
            }
            auto closure = algo(def...);
            judge("pipe form", shape, make() | closure);
            judge("pipe form, second use", shape, make() | closure);
        };
        forms(dtl::opt_min_element, [&](char const *form, char const *sh, auto const &got) { one(form, sh, got, lo, "opt_min_element"); });
        forms(dtl::opt_max_element, [&](char const *form, char const *sh, auto const &got) { one(form, sh, got, hi, "opt_max_element"); });
        forms(dtl::opt_minmax_element, [&](char const *form, char const *sh, auto const &got) { mm(form, sh, got); });
    });
    if constexpr (!std::is_same_v<T, V>) {
        if (v.size() == 2) {
            auto const a = v[0], b = v[1];
            one("two arguments", "-", dtl::opt_min(a, b, def...), lo, "opt_min");
            one("two arguments", "-", dtl::opt_max(a, b, def...), hi, "opt_max");
            mm("two arguments", "-", dtl::opt_minmax(a, b, def...));
            one("two temporaries", "-", dtl::opt_min(T(a), T(b), def...), lo, "opt_min");
            one("two temporaries", "-", dtl::opt_max(T(a), T(b), def...), hi, "opt_max");
            mm("two temporaries", "-", dtl::opt_minmax(T(a), T(b), def...));
            if (!same(a, v[0]) || !same(b, v[1])) vt::fail("input-modified", "arguments of %s changed", what);
            if (same(a, b)) {
                one("the same object twice", "-", dtl::opt_min(a, a, def...), lo, "opt_min");
                one("the same object twice", "-", dtl::opt_max(a, a, def...), hi, "opt_max");
            }
            vt::count("two_argument_calls");
        }
        auto il = [&](std::initializer_list<T> l) {
            one("initializer list", "-", dtl::opt_min(l, def...), lo, "opt_min");
            one("initializer list", "-", dtl::opt_max(l, def...), hi, "opt_max");
            mm("initializer list", "-", dtl::opt_minmax(l, def...));
            vt::count("initializer_list_calls");
        };
        switch (v.size()) {
            case 0: il({}); break;
            case 1: il({v[0]}); break;
            case 2: il({v[0], v[1]}); break;
            case 3: il({v[0], v[1], v[2]}); break;
            case 4: il({v[0], v[1], v[2], v[3]}); break;
            default: break;
        }
    }
    vt::distinct(vt::hash_str(std::string(what) + typeid(T).name() + show(v)));
    if (v.size() > 3) vt::sample(what, show(v));
}

template<class T> void all_cmps(std::vector<T> const &v) {
    using V = typename Unopt<T>::type;
    elements<T, std::less<V>>("less", v, std::less<V>{});
    elements<T, std::greater<V>, std::greater<V>>("greater", v, std::greater<V>{}, std::greater<V>{});
    if constexpr (requires(V x) { x.key; }) {
        auto c = [](V const &a, V const &b) { return a.key % 3 < b.key % 3; };
        elements<T, decltype(c), decltype(c)>("mod 3", v, c, c);
    }
    if constexpr (std::is_same_v<V, std::string>) {
        auto c = [](V const &a, V const &b) { return a.size() < b.size(); };
        elements<T, decltype(c), decltype(c)>("length", v, c, c);
    }
    if constexpr (std::is_same_v<V, int>) {
        auto c = [](V const &a, V const &b) { return (static_cast<unsigned>(a) & 3) < (static_cast<unsigned>(b) & 3); };
        elements<T, decltype(c), decltype(c)>("low bits", v, c, c);
    }
}
template<class V> void suite(char const *name, std::vector<V> alphabet) {
    vt::run(std::string(name) + "-optional", 60, [&](vt::Rng &r, uint64_t) {
        std::vector<std::optional<V>> v(r.chance(25) ? 2 : r.below(r.coin() ? 5 : 13));
        unsigned const absent = static_cast<unsigned>(r.below(4)) * 30;
        size_t const width = r.coin() ? 2 : alphabet.size();
        size_t const off = r.below(alphabet.size());
        int k = 0;
        for (auto &x : v) {
            if (r.chance(absent)) continue;
            x = alphabet[(off + r.below(width)) % alphabet.size()];
            if constexpr (requires { x->payload; }) x->payload = ++k;
        }
        all_cmps(v);
    });
    vt::run(std::string(name) + "-plain", 20, [&](vt::Rng &r, uint64_t) {
        std::vector<V> v(r.below(10));
        int k = 0;
        for (auto &x : v) {
            x = r.pick(alphabet);
            if constexpr (requires { x.payload; }) x.payload = ++k;
        }
        all_cmps(v);
    });
}
static void vt_main() {
#if PART == 0
    // every sequence of {absent, 0, 1, 2} up to length 4, as records (payload = position)
    vt::run("exhaustive", 341, [&](vt::Rng &, uint64_t i) {
        uint64_t m = i, len = 0, block = 1;
        while (m >= block) { m -= block; block *= 4; ++len; }
        std::vector<std::optional<Rec>> v;
        for (uint64_t d = 0; d < len; ++d) {
            if (m % 4) v.push_back(Rec{static_cast<int>(m % 4) - 1, static_cast<int>(d)});
            else v.push_back(std::nullopt);
            m /= 4;
        }
        elements<std::optional<Rec>, std::less<Rec>>("less", v, std::less<Rec>{});
        elements<std::optional<Rec>, std::greater<Rec>, std::greater<Rec>>("greater", v, std::greater<Rec>{}, std::greater<Rec>{});
    }, false);
    std::vector<Rec> recs;
    for (int k = -4; k < 6; ++k) recs.push_back({k, 0});
    suite<Rec>("record", recs);
#else
    suite<int>("int", {std::numeric_limits<int>::min(), -5, -1, 0, 1, 2, 3, 77, std::numeric_limits<int>::max()});
    suite<std::string>("string", {"", "a", "b", "aa", "ab", "zz", "a long string that needs the heap for sure", "another long string that needs the heap"});
    suite<double>("double", {-1e300, -0.0, 0.0, 1.5, 2.5, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
#endif
    vt::count("answers_compared", g_forms);
}
VT_MAIN
