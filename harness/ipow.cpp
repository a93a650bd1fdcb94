// C19: ipow against repeated multiplication of sign and capped 128-bit magnitude.  8-bit bases: every base x every 8-bit exponent;
// 16-bit bases: every base x all exponents that matter; 32/64-bit bases: around every k-th root of the limits, extremes and random values.
#include "vt.hpp"
#include <dice/template-library/ipow.hpp>
#include <limits>
#include <string>

namespace dtl = dice::template_library;
using U = unsigned __int128;
static uint64_t n_val, n_over, n_under, n_neg, n_calls;

// what is the true power?  0: fits with value (neg, mag), +1 above every 64-bit value, -1 below
struct Truth { bool neg; U mag; bool huge; };
template<class E> Truth truth(__int128 base, E exp) {
    bool const bneg = base < 0;
    U const bm = bneg ? static_cast<U>(-base) : static_cast<U>(base);
    if (std::is_signed_v<E> && exp < 0) { // truncated towards zero
        if (bm != 1) return {false, 0, false};
        return {bneg && (exp % 2) != 0, 1, false};
    }
    uint64_t e = static_cast<uint64_t>(exp);
    bool const neg = bneg && e % 2 == 1;
    if (bm <= 1) return {neg, e == 0 ? U(1) : bm, false};
    U m = 1;
    for (uint64_t i = 0; i < e; ++i) {
        m *= bm; // m <= 2^64, bm <= 2^64 - 1: no wrap
        if (m > (U(1) << 64)) return {neg, 0, true};
    }
    return {neg, m, false};
}
template<class B, class E> void check(B base, E exp) {
    ++n_calls;
    Truth const t = truth(static_cast<__int128>(base), exp);
    int kind = 0; // 0 value, 1 overflow, -1 underflow
    U const max = static_cast<U>(std::numeric_limits<B>::max());
    U const min_mag = std::is_signed_v<B> ? max + 1 : 0;
    if (t.huge) kind = t.neg ? -1 : 1;
    else if (t.neg ? t.mag > min_mag : t.mag > max) kind = t.neg ? -1 : 1;
    int got_kind;
    B got{};
    try {
        auto r = dtl::ipow(base, exp);
        static_assert(std::is_same_v<decltype(r), B>);
        got = r;
        got_kind = 0;
    } catch (std::overflow_error const &) { got_kind = 1; }
    catch (std::underflow_error const &) { got_kind = -1; }
    catch (...) { got_kind = 2; }
    auto name = [](int k) { return k == 0 ? "a value" : k == 1 ? "overflow" : k == -1 ? "underflow" : "another exception"; };
    if (got_kind != kind)
        vt::fail("wrong-outcome", "ipow(%s, %s) with a %zu-bit %s base and a %zu-bit exponent: %s, should be %s", std::to_string(base).c_str(), std::to_string(exp).c_str(), sizeof(B) * 8,
                 std::is_signed_v<B> ? "signed" : "unsigned", sizeof(E) * 8, name(got_kind), name(kind));
    else if (kind == 0) {
        B const want = t.neg ? static_cast<B>(static_cast<B>(-static_cast<__int128>(t.mag - 1)) - 1) : static_cast<B>(t.mag);
        if (got != want) vt::fail("wrong-value", "ipow(%s, %s) = %s, should be %s", std::to_string(base).c_str(), std::to_string(exp).c_str(), std::to_string(got).c_str(), std::to_string(want).c_str());
    }
    (kind == 0 ? n_val : kind == 1 ? n_over : n_under)++;
    if (std::is_signed_v<E> && exp < 0) ++n_neg;
}
template<class E, class B> void all_exps(B b) { // every exponent of an 8-bit type
    for (int e = std::numeric_limits<E>::min(); e <= std::numeric_limits<E>::max(); ++e) check<B, E>(b, static_cast<E>(e));
}
template<class E, class B> void some_exps(B b, vt::Rng *r) {
    for (int e = std::is_signed_v<E> ? -4 : 0; e <= 70; ++e) check<B, E>(b, static_cast<E>(e));
    constexpr E mx = std::numeric_limits<E>::max(), mn = std::numeric_limits<E>::min();
    for (E e : {mx, static_cast<E>(mx - 1), mn, static_cast<E>(mn + 1), static_cast<E>(mx / 2), static_cast<E>(mx / 2 + 1), static_cast<E>(mn / 2)}) check<B, E>(b, e);
    if (r)
        for (int i = 0; i < 4; ++i) check<B, E>(b, static_cast<E>(r->u64() >> r->below(64)));
}
template<class B> void every_exp_type(B b, vt::Rng *r) {
    all_exps<int8_t>(b);
    all_exps<uint8_t>(b);
    some_exps<int16_t>(b, r);
    some_exps<uint16_t>(b, r);
    some_exps<int32_t>(b, r);
    some_exps<uint32_t>(b, r);
    some_exps<int64_t>(b, r);
    some_exps<uint64_t>(b, r);
}
template<class B> void base16(uint64_t chunk) { // 256 bases per case
    for (uint64_t k = 0; k < 256; ++k) {
        B const b = static_cast<B>(chunk * 256 + k);
        for (int e = -2; e <= 17; ++e) { // |base| >= 2: everything from 16 on is out of range
            check<B, int64_t>(b, e);
            if (e >= 0) check<B, uint8_t>(b, static_cast<uint8_t>(e));
        }
        check<B, int8_t>(b, static_cast<int8_t>(63 + k % 3));
        check<B, uint32_t>(b, static_cast<uint32_t>(31 + k % 3));
        check<B, int64_t>(b, std::numeric_limits<int64_t>::max());
        check<B, int64_t>(b, std::numeric_limits<int64_t>::min());
        check<B, int64_t>(b, std::numeric_limits<int64_t>::min() + 1);
        check<B, uint64_t>(b, std::numeric_limits<uint64_t>::max());
    }
    vt::distinct(vt::mix(chunk, sizeof(B) + std::is_signed_v<B> * 100));
}
template<class B> void wide(vt::Rng &r) {
    // around the k-th root of the limits
    unsigned const k = static_cast<unsigned>(1 + r.below(sizeof(B) * 8));
    U lim = static_cast<U>(std::numeric_limits<B>::max());
    U lo = 1, hi = lim;
    while (lo < hi) { // largest x with x^k <= lim
        U mid = lo + (hi - lo + 1) / 2, p = 1;
        bool over = false;
        for (unsigned i = 0; i < k && !over; ++i) {
            p *= mid;
            over = p > lim;
        }
        if (over) hi = mid - 1;
        else lo = mid;
    }
    for (int d = -2; d <= 3; ++d) {
        if (d < 0 && lo < static_cast<U>(-d)) continue;
        U x = lo + static_cast<U>(static_cast<__int128>(d));
        if (x > lim) continue;
        B const b = static_cast<B>(x);
        every_exp_type<B>(b, &r);
        if (std::is_signed_v<B>) every_exp_type<B>(static_cast<B>(-b), &r);
        vt::distinct(vt::mix(static_cast<uint64_t>(b), sizeof(B) + std::is_signed_v<B> * 100));
    }
    for (B b : {std::numeric_limits<B>::min(), std::numeric_limits<B>::max(), static_cast<B>(std::numeric_limits<B>::min() + 1), B(0), B(1), B(2), static_cast<B>(-1), static_cast<B>(-2),
                static_cast<B>(B(1) << r.below(sizeof(B) * 8 - 1))})
        every_exp_type<B>(b, &r);
    B const b = static_cast<B>(r.u64() >> r.below(64));
    every_exp_type<B>(b, &r);
    vt::distinct(vt::mix(static_cast<uint64_t>(b), sizeof(B) + std::is_signed_v<B> * 100));
    if (vt::want_sample("wide base")) vt::sample("wide base", std::to_string(b) + ", " + std::to_string(static_cast<B>(lo)) + "+-2 (root " + std::to_string(k) + ")");
}
static_assert(dtl::ipow(2, 30) == (1 << 30) && dtl::ipow(-3, 3u) == -27 && dtl::ipow(uint8_t{15}, 2L) == 225 && dtl::ipow(7, -1) == 0);

static void vt_main() {
    vt::run("8bit", 256, [](vt::Rng &, uint64_t i) {
        every_exp_type<int8_t>(static_cast<int8_t>(i), nullptr);
        every_exp_type<uint8_t>(static_cast<uint8_t>(i), nullptr);
        vt::distinct(i);
    }, false);
#ifdef ALL16
    vt::run("16bit", 512, [](vt::Rng &, uint64_t i) {
        if (i < 256) base16<int16_t>(i);
        else base16<uint16_t>(i - 256);
    }, false);
#endif
    vt::run("32bit-signed", 40, [](vt::Rng &r, uint64_t) { wide<int32_t>(r); });
    vt::run("32bit-unsigned", 40, [](vt::Rng &r, uint64_t) { wide<uint32_t>(r); });
    vt::run("64bit-signed", 40, [](vt::Rng &r, uint64_t) { wide<int64_t>(r); });
    vt::run("64bit-unsigned", 40, [](vt::Rng &r, uint64_t) { wide<uint64_t>(r); });
    vt::run("long-long", 10, [](vt::Rng &r, uint64_t) { wide<long long>(r); wide<unsigned long long>(r); wide<signed char>(r); });
    vt::count("calls", n_calls);
    vt::count("values", n_val);
    vt::count("overflows", n_over);
    vt::count("underflows", n_under);
    vt::count("negative_exponents", n_neg);
}
VT_MAIN
