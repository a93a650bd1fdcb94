// C16: next_to_iter / next_back_to_reverse_iter / next_to_range / next_to_view.  The adapted generators walk a list of numbered elements and
// record their calls; a model (remaining interval, current element, peeked element) predicts every observation of random operation sequences.
#include "ledger.hpp"
#include "vt.hpp"
#include <dice/template-library/next_to_range.hpp>
#include <memory>
#include <numeric>
#include <ranges>

namespace dtl = dice::template_library;

enum : unsigned { COPY = 1, NTH = 2, BACK = 4, NTHB = 8, SIZED = 16, UNFUSED = 32, MOVEVAL = 64, DEFAULT = 128 };

struct Mov { // move-only element
    ledger::Obj<16, ledger::no_copy> o;
    Mov(int i) : o(i) {}
    Mov(Mov &&) = default;
    Mov &operator=(Mov &&) = default;
    int get() const { return o.get(); }
};
struct Val {
    ledger::Obj<17, 0> o;
    Val(int i) : o(i) {}
    int get() const { return o.get(); }
};
static int g_default_n = 3;
static uint64_t g_pulls, g_after_end;

struct Token { // a constructor argument that can only be used as long as nothing was moved out of it
    std::unique_ptr<int> v = std::make_unique<int>(4711);
    Token() = default;
    Token(Token const &o) : v(o.v ? new int(*o.v) : nullptr) {}
    Token(Token &&) = default;
};

template<unsigned F>
struct GenBase {
    using value_type = std::conditional_t<(F & MOVEVAL) != 0, Mov, Val>;
    int lo = 0, hi = 0;
    bool ended = false;
    explicit GenBase(int n) : hi(n) {}
    GenBase(int a, int b) : lo(a), hi(b) {}
    GenBase(Token t, int a, int b) : lo(a), hi(b) {
        if (!t.v || *t.v != 4711) vt::fail_s("argument", "the generator is made from an argument that was moved from before");
        vt::count("generators_made_from_stored_arguments");
    }
    GenBase() requires((F & DEFAULT) != 0) : hi(g_default_n) {}
    GenBase(GenBase const &) requires((F & COPY) != 0) = default;
    GenBase(GenBase &&) = default;
    GenBase &operator=(GenBase const &) requires((F & COPY) != 0) = default;
    GenBase &operator=(GenBase &&) = default;
    std::optional<value_type> next() {
        ++g_pulls;
        if (ended) {
            ++g_after_end;
            if (F & UNFUSED) return value_type(100000 + lo);
        }
        if (lo >= hi) {
            ended = true;
            return std::nullopt;
        }
        return value_type(lo++);
    }
    std::optional<value_type> nth(size_t off) requires((F & NTH) != 0) {
        ++g_pulls;
        if (off >= static_cast<size_t>(hi - lo)) {
            lo = hi;
            ended = true;
            return std::nullopt;
        }
        lo += static_cast<int>(off);
        return value_type(lo++);
    }
    std::optional<value_type> next_back() requires((F & BACK) != 0) {
        ++g_pulls;
        if (lo >= hi) return std::nullopt;
        return value_type(--hi);
    }
    std::optional<value_type> nth_back(size_t off) requires((F & NTHB) != 0) {
        ++g_pulls;
        if (off >= static_cast<size_t>(hi - lo)) {
            hi = lo;
            return std::nullopt;
        }
        hi -= static_cast<int>(off) + 1;
        return value_type(hi);
    }
    size_t remaining() const requires((F & SIZED) != 0) { return static_cast<size_t>(hi - lo); }
};
template<unsigned F> struct Gen : GenBase<F> {
    using GenBase<F>::GenBase;
};

template<unsigned F, bool Back>
struct Model {
    int lo, hi;
    int cur = -1;      // -1: at the end
    int peeked = -2;   // -2: nothing peeked, -1: peeked the end
    int take() { return lo >= hi ? -1 : Back ? --hi : lo++; }
    explicit Model(int a, int b) : lo(a), hi(b) { cur = take(); }
    void step() {
        if (peeked != -2) cur = peeked, peeked = -2;
        else cur = take();
    }
    int peek() {
        if (peeked == -2) peeked = take();
        return peeked;
    }
};

template<unsigned F, bool Back, class It>
static bool observe(It const &it, Model<F, Back> const &m, std::string const &log) {
    bool end = it == std::default_sentinel, end2 = std::default_sentinel == it;
    if (end != end2 || end != (m.cur < 0) || (it != std::default_sentinel) == end) {
        vt::fail_s("sentinel", log + vt::fmt("at end: %d, expected element %d", end, m.cur));
        return false;
    }
    if (!end) {
        int a = (*it).get(), b = it->get(), c = (*it).get();
        if (a != m.cur || b != m.cur || c != m.cur) {
            vt::fail_s("element", log + vt::fmt("dereferences to %d/%d/%d, expected %d", a, b, c, m.cur));
            return false;
        }
    }
    vt::count("observations");
    return true;
}

// random operations on one adapter (and on its copies)
template<unsigned F, bool Back, class It>
static void drive(vt::Rng &r, It &&start, int a, int b, std::string log) {
    using I = std::remove_cvref_t<It>;
    Model<F, Back> m(a, b);
    std::optional<I> cur;
    cur.emplace(std::move(start));
    uint64_t after0 = g_after_end;
    static_assert(std::input_iterator<I> || (F & MOVEVAL));
    int ops = 3 + static_cast<int>(r.below(25));
    if (!observe<F, Back>(*cur, m, log)) return;
    for (int i = 0; i < ops; ++i) {
        I &it = *cur;
        bool at_end = m.cur < 0;
        if (at_end && (F & UNFUSED)) break;
        switch (r.below(14)) {
            case 0:
            case 1:
            case 2:
                if (at_end) break;
                log += "++ ";
                if (&++it != &it) vt::fail_s("increment-result", log);
                m.step();
                break;
            case 3:
                if (at_end) break;
                log += "post++ ";
                if constexpr ((F & COPY) != 0 && !(F & MOVEVAL)) {
                    auto before = m;
                    auto old = it++;
                    if (!observe<F, Back>(old, before, log + "(old) ")) return;
                    // the old position continues on its own
                    if (r.coin()) {
                        ++old;
                        before.step();
                        if (!observe<F, Back>(old, before, log + "(old, advanced) ")) return;
                    }
                } else if constexpr ((F & COPY) == 0) it++;
                else ++it;
                m.step();
                break;
            case 4:
            case 5: {
                log += "peek ";
                if (at_end && m.peeked == -2 && (F & UNFUSED)) break;
                int want = m.peek();
                auto const &p = it.peek();
                int got = p.has_value() ? p->get() : -1;
                auto const &p2 = it.peek();
                int got2 = p2.has_value() ? p2->get() : -1;
                if (got != want || got2 != want) return vt::fail_s("peek", log + vt::fmt("gave %d then %d, expected %d", got, got2, want));
                vt::count(want < 0 ? "peeks_at_end" : "peeks");
                break;
            }
            case 6:
            case 7:
                if constexpr ((F & (Back ? NTHB : NTH)) != 0) {
                    if (at_end) break;
                    size_t n = r.chance(85) ? r.below(5) : r.below(60);
                    log += vt::fmt("+=%zu ", n);
                    if (&(it += n) != &it) vt::fail_s("increment-result", log);
                    for (size_t k = 0; k < n && m.cur >= 0; ++k) m.step();
                    vt::count("jumps");
                }
                break;
            case 8:
                if constexpr ((F & (Back ? NTHB : NTH)) != 0 && (F & COPY) != 0 && !(F & MOVEVAL)) {
                    if (at_end) break;
                    size_t n = r.below(6);
                    log += vt::fmt("+%zu ", n);
                    auto far = std::as_const(it) + n;
                    auto fm = m;
                    for (size_t k = 0; k < n && fm.cur >= 0; ++k) fm.step();
                    if (!observe<F, Back>(far, fm, log + "(sum) ")) return;
                }
                break;
            case 9:
                if constexpr ((F & COPY) != 0 && !(F & MOVEVAL)) {
                    int how = static_cast<int>(r.below(4));
                    log += vt::fmt("copy%d ", how);
                    std::optional<I> c;
                    if (how == 0) {
                        I d(it);
                        c.emplace(std::move(d));
                    } else if (how == 1) {
                        I d{std::as_const(it)};
                        c.emplace(std::move(d));
                    } else if (how == 2) {
                        I d = it;
                        c = d;
                    } else c.emplace(it);
                    if (!observe<F, Back>(*c, m, log)) return;
                    if (r.coin()) cur = c; // continue on the copy by assignment
                    vt::count("copies");
                }
                break;
            case 10: {
                log += "move ";
                I d(std::move(it));
                cur.reset();
                cur.emplace(std::move(d));
                break;
            }
            case 11:
                if constexpr ((F & SIZED) != 0) {
                    if (static_cast<int>(it.remaining()) != m.hi - m.lo && m.peeked == -2) return vt::fail_s("remaining", log + vt::fmt("remaining %zu, expected %d", it.remaining(), m.hi - m.lo));
                }
                break;
            default:
                // consume from the other end through the underlying iterator
                if constexpr (!Back && (F & BACK) != 0) {
                    log += "next_back ";
                    auto v = it.next_back();
                    int want = m.lo < m.hi ? --m.hi : -1;
                    int got = v ? v->get() : -1;
                    if (got != want) return vt::fail_s("from-the-back", log + vt::fmt("gave %d expected %d", got, want));
                    vt::count("back_accesses");
                }
        }
        if (!observe<F, Back>(*cur, m, log)) return;
    }
    // run it out
    if (!(m.cur < 0 && (F & UNFUSED))) {
        int guard = 0;
        while (*cur != std::default_sentinel && ++guard < 200) {
            if (!observe<F, Back>(*cur, m, log + "run-out ")) return;
            ++*cur;
            m.step();
        }
        if (!observe<F, Back>(*cur, m, log + "run-out ")) return;
    }
    if ((F & UNFUSED) && g_after_end != after0) vt::fail_s("asked-after-end", log + vt::fmt("%llu calls after the generator had ended", (unsigned long long) (g_after_end - after0)));
    vt::distinct(vt::hash_str(log));
    if (vt::want_sample("adapter program")) vt::sample("adapter program", log);
}

template<unsigned F>
static void one(vt::Rng &r) {
    using G = Gen<F>;
    int n = static_cast<int>(r.chance(85) ? r.below(12) : r.below(90)), a = static_cast<int>(r.below(3));
    g_default_n = n;
    std::string log = vt::fmt("generator flags %u [%d,%d) ", F, a, a + n);
    switch (r.below(4)) {
        case 0: { // plain adapters
            if constexpr ((F & BACK) != 0) {
                if (r.coin()) {
                    drive<F, true>(r, dtl::next_back_to_reverse_iter<G>(a, a + n), a, a + n, log + "reverse iter: ");
                    break;
                }
            }
            if constexpr ((F & DEFAULT) != 0) {
                if (r.coin()) {
                    drive<F, false>(r, dtl::next_to_iter<G>{}, 0, n, "default iter: ");
                    break;
                }
            }
            if constexpr ((F & COPY) != 0) {
                if (r.coin()) {
                    G g(a, a + n);
                    dtl::next_to_iter<G> it(g);
                    if (g.lo != a) vt::fail_s("source-consumed", log);
                    drive<F, false>(r, std::move(it), a, a + n, log + "iter from generator: ");
                    break;
                }
            }
            drive<F, false>(r, r.coin() ? dtl::next_to_iter<G>(a, a + n) : dtl::next_to_iter<G>(Token(), a, a + n), a, a + n, log + "iter: ");
            break;
        }
        case 1: { // range
            Token const tok;
            auto rg = r.coin() ? dtl::next_to_range<G>(a, a + n) : r.coin() ? dtl::next_to_range<G>(tok, a, a + n) : dtl::next_to_range<G>(Token(), a, a + n);
            auto body = [&](auto const &x) {
                if constexpr ((F & COPY) != 0 && (F & SIZED) != 0) {
                    if (static_cast<int>(x.size()) != n || x.empty() != (n == 0) || static_cast<bool>(x) != (n != 0)) vt::fail_s("range-size", log + vt::fmt("size %zu expected %d", x.size(), n));
                    static_assert(std::ranges::sized_range<dtl::next_to_range<G>>);
                }
                for (int pass = 0; pass < 2; ++pass) { // every begin() starts over
                    int k = a;
                    for (auto &v : x) {
                        if (v.get() != k) return vt::fail_s("range-element", log + vt::fmt("pass %d: %d expected %d", pass, v.get(), k));
                        ++k;
                    }
                    if (k != a + n) return vt::fail_s("range-length", log + vt::fmt("pass %d ended at %d", pass, k));
                }
                auto it = r.coin() ? x.begin() : x.cbegin();
                static_assert(std::is_same_v<decltype(it), typename dtl::next_to_range<G>::iterator>);
                drive<F, false>(r, std::move(it), a, a + n, log + "range iter: ");
                if (!(x.end() == x.begin()) != (n != 0) || !(x.cend() == x.cbegin()) != (n != 0)) vt::fail_s("range-end", log);
                if constexpr ((F & BACK) != 0) {
                    drive<F, true>(r, r.coin() ? x.rbegin() : x.crbegin(), a, a + n, log + "range reverse iter: ");
                    int k = a + n;
                    for (auto &&v : x.reversed())
                        if (v.get() != --k) return vt::fail_s("reversed", log + vt::fmt("%d expected %d", v.get(), k));
                    if (k != a) vt::fail_s("reversed", log + vt::fmt("ended at %d", k));
                    if ((x.rbegin() == x.rend()) != (n == 0) || (x.crbegin() == x.crend()) != (n == 0)) vt::fail_s("range-end", log);
                }
            };
            body(rg);
            if (r.coin()) {
                auto rg2 = rg;
                auto rg3 = std::move(rg);
                body(rg2);
                body(rg3);
            }
            vt::count("ranges");
            break;
        }
        default:
            if constexpr ((F & COPY) != 0) { // view
                auto v = r.coin() ? dtl::next_to_view<G>(a, a + n) : dtl::next_to_view<G>(Token(), a, a + n);
                int lo = a, hi = a + n;
                static_assert(std::ranges::view<dtl::next_to_view<G>> || (F & MOVEVAL));
                for (int i = 0; i < 6; ++i) {
                    int len = hi - lo;
                    if constexpr ((F & SIZED) != 0)
                        if (static_cast<int>(v.size()) != len || v.empty() != (len == 0) || static_cast<bool>(v) != (len != 0)) vt::fail_s("view-size", log + vt::fmt("size %zu expected %d", v.size(), len));
                    if (len > 0) {
                        if (v.front().get() != lo) vt::fail_s("front", log + vt::fmt("%d expected %d", v.front().get(), lo));
                        if constexpr ((F & BACK) != 0)
                            if (v.back().get() != hi - 1) vt::fail_s("back", log + vt::fmt("%d expected %d", v.back().get(), hi - 1));
                        if constexpr ((F & NTH) != 0) {
                            size_t k = r.below(static_cast<size_t>(len));
                            if (v[k].get() != lo + static_cast<int>(k)) vt::fail_s("index", log + vt::fmt("[%zu] is %d expected %d", k, v[k].get(), lo + static_cast<int>(k)));
                        }
                    }
                    int k = lo;
                    for (auto &x : v) {
                        if (x.get() != k) return vt::fail_s("view-element", log + vt::fmt("%d expected %d", x.get(), k));
                        ++k;
                    }
                    if (k != hi) return vt::fail_s("view-length", log + vt::fmt("ended at %d expected %d", k, hi));
                    if constexpr ((F & BACK) != 0) {
                        for (auto &&x : v.reversed())
                            if (x.get() != --k) return vt::fail_s("reversed", log + vt::fmt("%d expected %d", x.get(), k));
                        if (k != lo) vt::fail_s("reversed", log + vt::fmt("ended at %d", k));
                        if ((v.rbegin() == v.rend()) != (len == 0) || (v.crbegin() == v.crend()) != (len == 0)) vt::fail_s("view-end", log);
                        if (i == 1) drive<F, true>(r, r.coin() ? v.rbegin() : v.crbegin(), lo, hi, log + "view reverse iter: ");
                    }
                    if (i == 0) drive<F, false>(r, r.coin() ? v.begin() : v.cbegin(), lo, hi, log + "view iter: ");
                    if constexpr ((F & NTH) != 0) {
                        size_t d = r.chance(70) ? r.below(5) : r.below(40);
                        if (F & UNFUSED) d = std::min(d, static_cast<size_t>(hi - lo)); // beyond its end such a generator starts over
                        log += vt::fmt("advance(%zu) ", d);
                        if (&v.advance(d) != &v) vt::fail_s("advance", log);
                        lo = std::min<int>(hi, lo + static_cast<int>(d));
                    }
                    if constexpr (!(F & MOVEVAL)) {
                        auto w = v; // non-const copy must be the same view
                        dtl::next_to_view<G> w2(w);
                        auto it = w2.begin();
                        if ((it == w2.end()) != (lo == hi) || (lo != hi && it->get() != lo)) vt::fail_s("view-copy", log);
                        int sum = 0, want = 0;
                        for (auto &&x : w | std::views::transform([](auto const &x) { return x.get(); })) sum += x;
                        for (int q = lo; q < hi; ++q) want += q;
                        if (sum != want) vt::fail_s("view-pipeline", log + vt::fmt("sum %d expected %d", sum, want));
                    }
                }
                vt::count("views");
            }
    }
    ledger::expect_live(0, "program over");
    ledger::reset();
}

static void vt_main() {
    vt::run("programs", 40000, [](vt::Rng &r, uint64_t i) {
        switch (i % 14) {
            case 0: one<COPY>(r); break;
            case 1: one<0>(r); break;
            case 2: one<COPY | NTH>(r); break;
            case 3: one<COPY | BACK>(r); break;
            case 4: one<COPY | NTH | BACK | NTHB | SIZED>(r); break;
            case 5: one<NTH | BACK | NTHB | SIZED>(r); break;
            case 6: one<COPY | SIZED | DEFAULT>(r); break;
            case 7: one<COPY | UNFUSED>(r); break;
            case 8: one<UNFUSED | NTH>(r); break;
            case 9: one<MOVEVAL | NTH | BACK>(r); break;
            case 10: one<MOVEVAL | DEFAULT | SIZED>(r); break;
            case 11: one<COPY | NTH | UNFUSED>(r); break;
            case 12: one<COPY | BACK | NTHB>(r); break;
            default: one<COPY | NTH | BACK | SIZED | DEFAULT>(r);
        }
    });
    vt::count("generator_calls", g_pulls);
}
VT_MAIN
