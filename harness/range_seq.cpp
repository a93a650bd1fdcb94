// C15: range(). Oracle: the mathematical sequence start + k*step, computed with 128-bit integers.
#include "vt.hpp"
#include <chrono>
#include <dice/template-library/ranges.hpp>
#include <limits>
#include <ranges>

namespace dtl = dice::template_library;
using i128 = __int128;

static std::string s128(i128 v) {
    if (v < 0) return "-" + s128(-v);
    std::string s;
    do s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))), v /= 10;
    while (v);
    return s;
}
struct Seq {
    i128 start, step, n;
    Seq(i128 a, i128 b, i128 s) : start(a), step(s), n(0) {
        if (s > 0 && a < b) n = (b - a + s - 1) / s;
        if (s < 0 && a > b) n = (a - b - s - 1) / -s;
    }
    i128 at(i128 k) const { return start + k * step; }
};
template<class T> static i128 wide(T v) { return static_cast<i128>(v); }
template<class T, class S> static std::string name(T a, T b, S s) {
    return vt::fmt("range<%s,%s>(%s, %s, %s)", typeid(T).name(), typeid(S).name(), s128(wide(a)).c_str(), s128(wide(b)).c_str(), s128(wide(s)).c_str());
}

// every observation of one (start, stop, step) whose sequence is short enough to walk
template<class T, class S>
static void whole(T a, T b, S s, size_t limit) {
    Seq q(wide(a), wide(b), wide(s));
    auto v = dtl::range(a, b, s);
    auto bad = [&](char const *key, std::string const &m) { vt::fail_s(key, name(a, b, s) + ": " + m); };
    if (wide(v.size()) != q.n) return bad("size", vt::fmt("size %zu, expected ", v.size()) + s128(q.n));
    if (v.empty() != (q.n == 0) || static_cast<bool>(v) == (q.n == 0)) bad("empty", "empty/operator bool");
    if (q.n) {
        if (wide(v.front()) != q.at(0)) bad("front", s128(wide(v.front())));
        if (wide(v.back()) != q.at(q.n - 1)) bad("back", "back " + s128(wide(v.back())) + " expected " + s128(q.at(q.n - 1)));
    }
    size_t k = 0;
    size_t n = static_cast<size_t>(std::min<i128>(q.n, static_cast<i128>(limit)));
    auto it = v.begin();
    for (; k < n && it != v.end(); ++it, ++k)
        if (wide(*it) != q.at(static_cast<i128>(k))) return bad("element", vt::fmt("element %zu is ", k) + s128(wide(*it)) + " expected " + s128(q.at(static_cast<i128>(k))));
    if (k < n || (static_cast<i128>(n) == q.n && it != v.end())) return bad("length", vt::fmt("ended after %zu elements, expected ", k) + s128(q.n));
    k = 0;
    auto rit = v.rbegin();
    for (; k < n && rit != v.rend(); ++rit, ++k)
        if (wide(*rit) != q.at(q.n - 1 - static_cast<i128>(k))) return bad("reverse-element", vt::fmt("element %zu from the back is ", k) + s128(wide(*rit)) + " expected " + s128(q.at(q.n - 1 - static_cast<i128>(k))));
    if (k < n || (static_cast<i128>(n) == q.n && rit != v.rend())) return bad("reverse-length", vt::fmt("reverse ended after %zu elements, expected ", k) + s128(q.n));
    vt::count("elements_walked", 2 * n);
}

template<class T> static T pick(vt::Rng &r) {
    using L = std::numeric_limits<T>;
    switch (r.below(6)) {
        case 0: return static_cast<T>(L::max() - static_cast<T>(r.below(20)));
        case 1: return static_cast<T>(L::min() + static_cast<T>(r.below(20)));
        case 2: return static_cast<T>(r.u64());
        case 3: return static_cast<T>(L::max() / 2 + static_cast<T>(r.below(20)));
        default: return static_cast<T>(static_cast<int64_t>(r.below(60)) - (std::is_signed_v<T> ? 30 : 0));
    }
}

// a random mix of forward, backward and jump access on one underlying iterator, and of view operations
template<class T, class S>
static void mixed(vt::Rng &r) {
    T a = pick<T>(r), b = pick<T>(r);
    S s = r.chance(60) ? static_cast<S>(static_cast<int64_t>(r.below(9)) - (std::is_signed_v<S> ? 4 : 0)) : pick<S>(r);
    if (s == 0) {
        try {
            (void) dtl::range(a, b, s);
            vt::fail_s("zero-step", name(a, b, s) + " did not throw");
        } catch (std::invalid_argument const &) {
            vt::count("zero_steps_rejected");
        }
        return;
    }
    if (r.chance(30)) b = static_cast<T>(static_cast<uint64_t>(a) + r.below(100)); // short ones near a (wrapping is fine)
    whole(a, b, s, 64);
    Seq q(wide(a), wide(b), wide(s));
    using It = typename dtl::range_view<T, S>::iterator::base_iterator;
    It it(a, b, s);
    i128 lo = 0, hi = q.n;
    std::string log = name(a, b, s) + " ";
    auto step = [&](char const *nm, std::optional<T> got, bool has, i128 idx) {
        log += nm;
        log += ' ';
        if (got.has_value() != has || (has && wide(*got) != q.at(idx))) {
            vt::fail_s("mixed-access", log + "gave " + (got ? s128(wide(*got)) : "nothing") + " expected " + (has ? s128(q.at(idx)) : "nothing"));
            return false;
        }
        return true;
    };
    bool big = hi - lo > 1000;
    int ops = 3 + static_cast<int>(r.below(20));
    for (int i = 0; i < ops; ++i) {
        bool ok = true;
        size_t off = r.chance(70) ? r.below(5) : big && r.coin() ? static_cast<size_t>(hi - lo) - r.below(6) : static_cast<size_t>(r.u64() >> r.below(64));
        bool has = static_cast<i128>(off) < hi - lo;
        switch (r.below(5)) {
            case 0:
                ok = step("next", it.next(), lo < hi, lo);
                if (lo < hi) ++lo;
                break;
            case 1:
                ok = step("next_back", it.next_back(), lo < hi, hi - 1);
                if (lo < hi) --hi;
                break;
            case 2:
                ok = step(vt::fmt("nth(%zu)", off).c_str(), it.nth(off), has, lo + static_cast<i128>(off));
                lo = has ? lo + static_cast<i128>(off) + 1 : hi;
                break;
            case 3:
                ok = step(vt::fmt("nth_back(%zu)", off).c_str(), it.nth_back(off), has, hi - 1 - static_cast<i128>(off));
                hi = has ? hi - 1 - static_cast<i128>(off) : lo;
                break;
            default: {
                It c(std::as_const(it));
                it = c;
                log += "copy ";
            }
        }
        if (!ok) return;
        if (wide(it.remaining()) != hi - lo) return vt::fail_s("remaining", log + vt::fmt("remaining %zu expected ", it.remaining()) + s128(hi - lo));
    }
    vt::count("mixed_accesses", static_cast<uint64_t>(ops));
    // the view: indexing, advance, iterator jumps, peek, reversed
    if (q.n > 0) {
        auto v = dtl::range(a, b, s);
        size_t n = static_cast<size_t>(std::min<i128>(q.n, static_cast<i128>(SIZE_MAX)));
        for (int i = 0; i < 4; ++i) {
            size_t k = r.coin() ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 5));
            if (wide(v[k]) != q.at(static_cast<i128>(k))) return vt::fail_s("index", name(a, b, s) + vt::fmt("[%zu] is ", k) + s128(wide(v[k])));
            auto i1 = v.begin() + k;
            if (wide(*i1) != q.at(static_cast<i128>(k))) return vt::fail_s("iterator-jump", name(a, b, s) + vt::fmt(" begin()+%zu is ", k) + s128(wide(*i1)));
            auto pk = i1.peek();
            bool more = static_cast<i128>(k) + 1 < q.n;
            if (pk.has_value() != more || (more && wide(*pk) != q.at(static_cast<i128>(k) + 1))) return vt::fail_s("peek", name(a, b, s) + vt::fmt(" after %zu", k));
            auto i2 = v.rbegin();
            i2 += k;
            if (wide(*i2) != q.at(q.n - 1 - static_cast<i128>(k))) return vt::fail_s("reverse-jump", name(a, b, s) + vt::fmt(" rbegin()+%zu is ", k) + s128(wide(*i2)));
        }
        auto w = v;
        i128 dropped = 0;
        for (int i = 0; i < 4; ++i) {
            size_t k = r.chance(80) ? r.below(6) : r.below(n + 1);
            w.advance(k);
            dropped = std::min<i128>(q.n, dropped + static_cast<i128>(k));
            if (wide(w.size()) != q.n - dropped || w.empty() != (q.n == dropped)) return vt::fail_s("advance", name(a, b, s) + vt::fmt(" advance(%zu) leaves %zu", k, w.size()));
            if (dropped < q.n && (wide(w.front()) != q.at(dropped) || wide(*w.begin()) != q.at(dropped) || wide(w.back()) != q.at(q.n - 1)))
                return vt::fail_s("advance", name(a, b, s) + vt::fmt(" advance(%zu): front ", k) + s128(wide(w.front())) + " back " + s128(wide(w.back())));
        }
        size_t k = 0;
        for (T x : v.reversed()) {
            if (wide(x) != q.at(q.n - 1 - static_cast<i128>(k))) return vt::fail_s("reversed", name(a, b, s) + vt::fmt(" element %zu", k));
            if (++k == 40) break;
        }
        if (wide(v.size()) != q.n) return vt::fail_s("view-changed", name(a, b, s));
        vt::count("view_programs");
    } else vt::count("empty_ranges");
    vt::distinct(vt::hash_str(log));
    if (vt::want_sample("mixed access")) vt::sample("mixed access", log);
}

// the forms without step
template<class T>
static void forms(vt::Rng &r) {
    T a = pick<T>(r), b = r.coin() ? pick<T>(r) : static_cast<T>(static_cast<uint64_t>(a) + r.below(50));
    auto same = [&](auto v, Seq q, char const *what) {
        if (wide(v.size()) != q.n) return vt::fail_s("form-size", vt::fmt("%s of %s: size %zu", what, typeid(T).name(), v.size()));
        int k = 0;
        for (T x : v) {
            if (wide(x) != q.at(k)) return vt::fail_s("form-element", vt::fmt("%s of %s: element %d is %s", what, typeid(T).name(), k, s128(wide(x)).c_str()));
            if (++k > 80) break;
        }
        if (q.n && wide(v.back()) != q.at(q.n - 1)) vt::fail_s("form-back", vt::fmt("%s of %s", what, typeid(T).name()));
    };
    same(dtl::range(a, b), Seq(wide(a), wide(b), 1), "range(start, stop)");
    same(dtl::range(b), Seq(0, wide(b), 1), "range(stop)");
    vt::distinct(vt::mix(static_cast<uint64_t>(a) * 31 + sizeof(T), static_cast<uint64_t>(b)));
    vt::count("short_forms", 2);
}

// all starts x stops x steps of 8-bit types
template<class T, class S>
static void all8(uint64_t i, int stride) {
    T a = static_cast<T>(static_cast<int>(i) + std::numeric_limits<T>::min());
    for (int b = std::numeric_limits<T>::min(); b <= std::numeric_limits<T>::max(); ++b)
        for (int s = std::numeric_limits<S>::min() + static_cast<int>(static_cast<unsigned>(b + 1000 + static_cast<int>(i)) % static_cast<unsigned>(stride)); s <= std::numeric_limits<S>::max(); s += stride) {
            if (s == 0) continue;
            whole<T, S>(a, static_cast<T>(b), static_cast<S>(s), 1000);
            if (vt::st().failures > 20) return;
            vt::count("triples_8bit");
        }
    vt::distinct(vt::mix(i, sizeof(S) * 2 + std::is_signed_v<T>));
}

struct Day {
    std::chrono::sys_days d;
};
static void other_types(vt::Rng &r) {
    // floating point with exact (dyadic) arithmetic, and calendar types: forward only
    double a = static_cast<double>(r.in(-40, 40)) / 4, b = static_cast<double>(r.in(-40, 40)) / 4, s = static_cast<double>(r.in(-12, 12)) / 8;
    if (s == 0) {
        try {
            (void) dtl::range(a, b, s);
            vt::fail("zero-step", "double");
        } catch (std::invalid_argument const &) {
        }
        return;
    }
    double x = a;
    for (double v : dtl::range(a, b, s)) {
        if (!(s > 0 ? x < b : x > b) || v != x) return vt::fail("double-element", "range(%g, %g, %g) yields %g, expected %g", a, b, s, v, x);
        x += s;
    }
    if (s > 0 ? x < b : x > b) return vt::fail("double-length", "range(%g, %g, %g) ended before %g", a, b, s, x);
    using namespace std::chrono;
    year_month_day y0{year{static_cast<int>(r.in(1990, 2030))}, month{static_cast<unsigned>(r.in(1, 12))}, day{static_cast<unsigned>(r.in(1, 28))}};
    year_month_day y1 = y0 + months{static_cast<int>(r.in(-30, 30))};
    months st{static_cast<int>(r.in(-4, 4))};
    if (st.count() == 0) return;
    auto y = y0;
    for (auto v : dtl::range(y0, y1, st)) {
        if (!(st.count() > 0 ? y < y1 : y > y1) || v != y) return vt::fail("calendar-element", "step %ld months", static_cast<long>(st.count()));
        y += st;
    }
    if (st.count() > 0 ? y < y1 : y > y1) return vt::fail("calendar-length", "step %ld months", static_cast<long>(st.count()));
    vt::count("other_type_ranges", 2);
    vt::distinct(vt::mix(static_cast<uint64_t>(static_cast<int64_t>(a * 8) * 10007 + static_cast<int64_t>(b * 8) * 101 + static_cast<int64_t>(s * 8)), static_cast<uint64_t>(st.count())));
}

static_assert(dtl::range(0, 10, 3).size() == 4 && dtl::range(0, 10, 3).back() == 9 && dtl::range(10, 0, -4).back() == 2);
static_assert(std::ranges::view<dtl::range_view<int, int>>);
static_assert(std::ranges::sized_range<dtl::range_view<int, int>>);

static void vt_main() {
    vt::run("mixed", 60000, [](vt::Rng &r, uint64_t i) {
        switch (i % 16) {
            case 0: mixed<int8_t, int8_t>(r); break;
            case 1: mixed<uint8_t, uint8_t>(r); break;
            case 2: mixed<uint8_t, int>(r); break;
            case 3: mixed<int16_t, int16_t>(r); break;
            case 4: mixed<uint16_t, int8_t>(r); break;
            case 5: mixed<int, int>(r); break;
            case 6: mixed<int, int8_t>(r); break;
            case 7: mixed<unsigned, unsigned>(r); break;
            case 8: mixed<unsigned, int>(r); break;
            case 9: mixed<int64_t, int64_t>(r); break;
            case 10: mixed<int64_t, int>(r); break;
            case 11: mixed<uint64_t, uint64_t>(r); break;
            case 12: mixed<uint64_t, int64_t>(r); break;
            case 13: mixed<size_t, int>(r); break;
            case 14: mixed<int8_t, int64_t>(r); break;
            default: mixed<char, short>(r);
        }
    });
    vt::run("forms", 8000, [](vt::Rng &r, uint64_t i) {
        switch (i % 8) {
            case 0: forms<int8_t>(r); break;
            case 1: forms<uint8_t>(r); break;
            case 2: forms<int16_t>(r); break;
            case 3: forms<uint16_t>(r); break;
            case 4: forms<int>(r); break;
            case 5: forms<unsigned>(r); break;
            case 6: forms<int64_t>(r); break;
            default: forms<uint64_t>(r);
        }
    });
    vt::run("other", 4000, [](vt::Rng &r, uint64_t) { other_types(r); });
#ifdef ALL8
    vt::run("all8-int8-int8", 256, [](vt::Rng &, uint64_t i) { all8<int8_t, int8_t>(i, 1); }, false);
    vt::run("all8-uint8-uint8", 256, [](vt::Rng &, uint64_t i) { all8<uint8_t, uint8_t>(i, 1); }, false);
    vt::run("all8-uint8-int8", 256, [](vt::Rng &, uint64_t i) { all8<uint8_t, int8_t>(i, 1); }, false);
#else
    vt::run("all8-int8-int8", 256, [](vt::Rng &, uint64_t i) { all8<int8_t, int8_t>(i, 61); }, false);
    vt::run("all8-uint8-int8", 256, [](vt::Rng &, uint64_t i) { all8<uint8_t, int8_t>(i, 61); }, false);
#endif
}
VT_MAIN
