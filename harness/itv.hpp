// C24: driver for integral_template_variant.  gen_itv.py instantiates it with index ranges drawn from the seed; every random history
// of operations (with exceptions injected into constructors, copies and moves) is mirrored by a model (alternative, value), and the
// object ledger watches every contained object.
#pragma once
#include "ledger.hpp"
#include "vt.hpp"
#include <dice/template-library/integral_template_variant.hpp>
#include <array>
#include <optional>
#include <string>

namespace dtl = dice::template_library;
using ledger::moved_out;

template<auto I> consteval unsigned flags_of() {
    constexpr int k = static_cast<int>(static_cast<unsigned long long>(I) % 5);
    return k == 1 ? ledger::throwing_ctor | ledger::throwing_copy | ledger::throwing_move
         : k == 2 ? ledger::throwing_copy
         : k == 3 ? ledger::throwing_copy | ledger::no_move_decl
         : k == 4 ? ledger::throwing_ctor : 0u;
}
template<auto I> struct Mixed : ledger::Obj<static_cast<int>(static_cast<unsigned long long>(I) % 1000), flags_of<I>()> {
    static constexpr auto index = I;
    using Base = ledger::Obj<static_cast<int>(static_cast<unsigned long long>(I) % 1000), flags_of<I>()>;
    using Base::Base;
};
template<auto I> struct MoveOnly : ledger::Obj<static_cast<int>(static_cast<unsigned long long>(I) % 1000), ledger::no_copy | (static_cast<unsigned long long>(I) % 2 ? ledger::throwing_move | ledger::throwing_ctor : 0u)> {
    static constexpr auto index = I;
    using Base = ledger::Obj<static_cast<int>(static_cast<unsigned long long>(I) % 1000), ledger::no_copy | (static_cast<unsigned long long>(I) % 2 ? ledger::throwing_move | ledger::throwing_ctor : 0u)>;
    using Base::Base;
};
template<auto I> struct Plain { // trivially copyable, of varying size
    static constexpr auto index = I;
    int v = 0;
    char more[1 + static_cast<unsigned long long>(I) % 7] = {};
    Plain() = default;
    Plain(int x) : v{x} {}
    Plain(int x, int y) : v{x * 1000 + y} {}
    int get() const { return v; }
    friend bool operator==(Plain const &a, Plain const &b) { return a.v == b.v; }
    friend auto operator<=>(Plain const &a, Plain const &b) { return a.v <=> b.v; }
};
template<auto I> struct Ctor : Mixed<I> { // no default constructor
    static constexpr auto index = I;
    explicit Ctor(int x) : Mixed<I>(x) {}
    Ctor(int x, int y) : Mixed<I>(x, y) {}
};
template<class T> struct Hash { size_t operator()(T const &x) const noexcept { return static_cast<size_t>(x.v) * 31 + 7; } };
template<auto I> struct std::hash<Mixed<I>> : Hash<Mixed<I>> {};
template<auto I> struct std::hash<MoveOnly<I>> : Hash<MoveOnly<I>> {};
template<auto I> struct std::hash<Plain<I>> : Hash<Plain<I>> {};
template<auto I> struct std::hash<Ctor<I>> : Hash<Ctor<I>> {};

template<class IX, IX First, IX Last, template<IX> class T> struct Itv {
    using V = dtl::integral_template_variant<First, Last, T>;
    static constexpr __int128 first = First, last = Last;
    static constexpr bool asc = first < last;
    static constexpr size_t N = static_cast<size_t>(asc ? last - first : first - last);
    static constexpr IX at(size_t k) { return static_cast<IX>(asc ? first + static_cast<__int128>(k) : first - static_cast<__int128>(k)); }
    template<size_t K> using E = T<at(K)>;
    static constexpr bool copyable = std::is_copy_constructible_v<E<0>>;
    static constexpr bool ledgered = !std::is_trivially_copyable_v<E<0>>;
    static constexpr bool has_default = std::is_default_constructible_v<E<0>>;
    static constexpr int valueless = -1;
    static_assert(std::is_same_v<typename V::index_type, IX>);
    static_assert(std::is_copy_constructible_v<V> == copyable && std::is_move_constructible_v<V> == std::is_move_constructible_v<E<0>> && std::is_default_constructible_v<V> == has_default);
    // an exception of a contained object must be able to leave
    static constexpr bool nothrow_copy = []<size_t... K>(std::index_sequence<K...>) { return (std::is_nothrow_copy_constructible_v<E<K>> && ...); }(std::make_index_sequence<N>{});
    static constexpr bool nothrow_move = []<size_t... K>(std::index_sequence<K...>) { return (std::is_nothrow_move_constructible_v<E<K>> && ...); }(std::make_index_sequence<N>{});

    struct Model {
        int alt = valueless; // position of the alternative
        int v = 0;
        bool operator==(Model const &) const = default;
    };
    static std::string name() { return vt::fmt("integral_template_variant<%s %lld, %lld, %s>", typeid(IX).name(), static_cast<long long>(First), static_cast<long long>(Last), typeid(E<0>).name()); }
    static std::string show(Model m) { return m.alt == valueless ? "valueless" : vt::fmt("T<%lld>(%d)", static_cast<long long>(at(static_cast<size_t>(m.alt))), m.v); }
    template<class F> static void with(size_t k, F &&f) {
        [&]<size_t... K>(std::index_sequence<K...>) { ((K == k ? (f(std::integral_constant<size_t, K>{}), 0) : 0), ...); }(std::make_index_sequence<N>{});
    }
    // what the variant holds, from every observer; they have to agree
    static Model observe(V const &v, std::string const &ctx) {
        vt::count("observations");
        Model m;
        std::string bad;
        int holding = 0;
        auto look = [&]<size_t K>(std::integral_constant<size_t, K>) {
            static_assert(std::is_same_v<decltype(std::declval<V &>().template get<at(K)>()), E<K> &>);
            static_assert(std::is_same_v<decltype(std::declval<V const &>().template get<at(K)>()), E<K> const &>);
            static_assert(std::is_same_v<decltype(std::declval<V>().template get<at(K)>()), E<K> &&>);
            static_assert(std::is_same_v<typename V::template value_type<at(K)>, E<K>>);
            bool const h = v.template holds_alternative<at(K)>();
            if (h != v.template holds_alternative<E<K>>()) bad = "holds_alternative by index and by type disagree";
            if (h) ++holding, m.alt = static_cast<int>(K);
            try {
                m.v = v.template get<at(K)>().get();
                if (!h) bad = vt::fmt("get<%lld> gives access to an alternative that is not held", static_cast<long long>(at(K)));
            } catch (std::bad_variant_access const &) {
                if (h) bad = "get of the held alternative throws";
                else vt::count("wrong_gets_rejected");
            }
        };
        [&]<size_t... K>(std::index_sequence<K...>) { (look(std::integral_constant<size_t, K>{}), ...); }(std::make_index_sequence<N>{});
        if (holding > 1) bad = "holds several alternatives";
        if (m.alt != valueless && v.index() != at(static_cast<size_t>(m.alt))) bad = vt::fmt("index() is %lld", static_cast<long long>(v.index()));
        if (m.alt == valueless ? !v.to_underlying().valueless_by_exception() : v.to_underlying().index() != static_cast<size_t>(m.alt)) bad = "the underlying variant holds another alternative";
        int calls = 0;
        try {
            Model seen;
            int cell = 0;
            int const &res = v.visit([&](auto const &x) -> int const & {
                using X = std::remove_cvref_t<decltype(x)>;
                ++calls;
                for (size_t k = 0; k < N; ++k)
                    if (at(k) == X::index) seen = {static_cast<int>(k), x.get()};
                return cell;
            });
            if (calls != 1 || !(seen == m) || &res != &cell) bad = "visit saw " + show(seen) + " in " + std::to_string(calls) + " calls";
        } catch (std::bad_variant_access const &) {
            if (m.alt != valueless || calls) bad = "visit throws";
            else vt::count("valueless_visits_rejected");
        }
        if (!bad.empty()) vt::fail("itv:observers", "%s: holds %s but %s | %s", name().c_str(), show(m).c_str(), bad.c_str(), ctx.c_str());
        return m;
    }
    static void history(vt::Rng &r) {
        constexpr size_t S = 4;
        std::array<std::optional<V>, S> v;
        std::array<Model, S> m;
        std::string log;
        bool const faults = ledgered && r.chance(60);
        for (int step = 0; step < 24; ++step) {
            size_t const i = r.below(S), j = r.below(S), k = r.below(N);
            int const x = static_cast<int>(r.below(4));
            int op = static_cast<int>(r.below(13));
            if (!v[i] && op > 4) op %= 5;
            if ((op == 3 || op == 4) && (!v[j] || i == j)) op = 2;
            bool const arm = faults && r.chance(35);
            log += vt::fmt("%d(%zu,%zu,%zu=%d)%s ", op, i, j, k, x, arm ? "!" : "");
            std::array<Model, S> const old = m;
            bool moves = false, thrown = false;
            auto reset = [&](size_t q) { v[q].reset(); m[q] = {}; };
            if (op <= 4) reset(i);
            if (arm) ledger::arm(static_cast<long>(r.below(3)));
            try {
                switch (op) {
                    case 0:
                        if constexpr (has_default) {
                            v[i].emplace();
                            m[i] = {0, 0};
                        }
                        break;
                    case 1:
                        with(k, [&](auto K) {
                            E<K> e(x);
                            if (copyable && (step & 1)) {
                                if constexpr (copyable) v[i].emplace(std::as_const(e));
                            } else {
                                v[i].emplace(std::move(e));
                            }
                            m[i] = {static_cast<int>(K()), x};
                        });
                        break;
                    case 2:
                        with(k, [&](auto K) {
                            if (step & 1) {
                                v[i].emplace(std::in_place_type<E<K>>, x);
                                m[i] = {static_cast<int>(K()), x};
                            } else {
                                v[i].emplace(std::in_place_type<E<K>>, x, 3);
                                m[i] = {static_cast<int>(K()), x * 1000 + 3};
                            }
                        });
                        break;
                    case 3:
                        if constexpr (copyable) {
                            v[i].emplace(std::as_const(*v[j]));
                            m[i] = m[j];
                        }
                        break;
                    case 4:
                        moves = true;
                        v[i].emplace(std::move(*v[j]));
                        m[i] = m[j];
                        break;
                    case 5:
                    case 6:
                        if constexpr (copyable) {
                            if (!v[j]) break;
                            *v[i] = std::as_const(*v[j]);
                            m[i] = m[j];
                        }
                        break;
                    case 7:
                        if (!v[j] || i == j) break;
                        moves = true;
                        *v[i] = std::move(*v[j]);
                        m[i] = m[j];
                        break;
                    case 8:
                        with(k, [&](auto K) {
                            E<K> *p;
                            if (step & 1) {
                                p = &v[i]->template emplace<at(K)>(x);
                                m[i] = {static_cast<int>(K()), x};
                            } else {
                                p = &v[i]->template emplace<at(K)>(x, 5);
                                m[i] = {static_cast<int>(K()), x * 1000 + 5};
                            }
                            ledger::disarm();
                            if (p != &v[i]->template get<at(K)>()) vt::fail("itv:emplace-result", "%s: emplace does not return the new object | %s", name().c_str(), log.c_str());
                        });
                        break;
                    case 9:
                        with(k, [&](auto K) {
                            E<K> e(x);
                            if (copyable && (step & 1)) {
                                if constexpr (copyable) *v[i] = std::as_const(e);
                            } else {
                                *v[i] = std::move(e);
                            }
                            m[i] = {static_cast<int>(K()), x};
                        });
                        break;
                    case 10:
                        if (m[i].alt != valueless) {
                            with(static_cast<size_t>(m[i].alt), [&](auto K) { v[i]->template get<at(K)>().v = x; });
                            m[i].v = x;
                        }
                        break;
                    case 11:
                        if (m[i].alt != valueless) {
                            v[i]->visit([&](auto &e) { e.v = x + 10; });
                            m[i].v = x + 10;
                        }
                        break;
                    case 12:
                        if (!v[j] || i == j) break;
                        moves = true;
                        std::swap(*v[i], *v[j]);
                        std::swap(m[i], m[j]);
                        break;
                }
                ledger::disarm();
            } catch (ledger::Boom const &) {
                thrown = true;
                log += "threw ";
                vt::count("exceptions_reached_the_caller");
            }
            ledger::disarm();
            size_t alive = 0;
            for (size_t q = 0; q < S; ++q) {
                if (!v[q]) {
                    m[q] = {};
                    continue;
                }
                Model const now = observe(*v[q], log);
                bool ok = now == m[q];
                // a moved-from variant keeps its alternative, with its old value or the one the move left
                if (!ok && !thrown && moves && q == j && op != 12) ok = now.alt == old[q].alt && now.v == moved_out;
                if (thrown && (q == i || (moves && q == j))) {
                    ok = now.alt == valueless || now == old[q] || (moves && q == j && now.alt == old[q].alt && now.v == moved_out);
                    if (op == 12) ok = ok || now == old[i] || now == old[j] || now.v == moved_out;
                }
                if (!ok) vt::fail(thrown ? "itv:state-after-exception" : "itv:wrong-state", "%s variant %zu holds %s, expected %s (before %s) | %s", name().c_str(), q, show(now).c_str(), show(m[q]).c_str(), show(old[q]).c_str(), log.c_str());
                m[q] = now;
                if (now.alt != valueless) ++alive;
                else vt::count("valueless_states");
            }
            if (ledgered && ledger::live_count() != alive) {
                vt::fail("itv:objects", "%s: %zu contained objects are alive in %zu variants | %s", name().c_str(), ledger::live_count(), alive, log.c_str());
                return;
            }
            if (v[i] && v[j]) compare(*v[i], *v[j], m[i], m[j], log);
        }
        uint64_t h = vt::hash_str(name() + log);
        vt::distinct(h);
        if (vt::want_sample("integral_template_variant")) vt::sample("integral_template_variant", name() + " " + log);
    }
    static void compare(V const &a, V const &b, Model x, Model y, std::string const &log) {
        vt::count("comparisons");
        bool const eq = x == y || (x.alt == valueless && y.alt == valueless);
        bool ok = (a == b) == eq && (a != b) == !eq && (b == a) == eq && (a <= b) == (a < b || eq) && (a >= b) == (a > b || eq) && (a < b) == (b > a) && (a < b) + (b < a) + eq == 1;
        if (x.alt == y.alt && x.alt != valueless) ok = ok && (a < b) == (x.v < y.v) && ((a <=> b) < 0) == (x.v < y.v);
        if (eq && std::hash<V>{}(a) != std::hash<V>{}(b)) ok = false;
        if (!ok) vt::fail("itv:compare", "%s: %s and %s | %s", name().c_str(), show(x).c_str(), show(y).c_str(), log.c_str());
    }
    static void run(vt::Rng &r) {
        for (int i = 0; i < 150; ++i) {
            ledger::reset();
            history(r);
            ledger::expect_live(0, name().c_str());
        }
        vt::count(asc ? "ascending_index_ranges" : "descending_index_ranges");
        if (first < 0 || last < 0) vt::count("ranges_with_negative_indices");
    }
};
// elements that cannot be copied or moved and record the value categories of their constructor's arguments
struct Arg { int v; };
template<auto I> struct Pinned {
    static constexpr auto index = I;
    inline static int made = 0, gone = 0;
    int v = 0;
    bool lvalue = false, rvalue = false;
    Pinned() { ++made; }
    Pinned(Arg &a) : v{a.v}, lvalue{true} { ++made; }
    Pinned(Arg &&a) : v{a.v}, rvalue{true} { a.v = -1, ++made; }
    Pinned(Arg &a, Arg &&b) : v{a.v * 10 + b.v}, lvalue{true}, rvalue{true} { b.v = -1, ++made; }
    Pinned(Pinned const &) = delete;
    ~Pinned() { ++gone; }
    int get() const { return v; }
};
template<class IX, IX First, IX Last> void pinned_range(vt::Rng &r) {
    using D = Itv<IX, First, Last, Pinned>;
    using V = typename D::V;
    static_assert(!std::is_copy_constructible_v<V> && !std::is_move_constructible_v<V>);
    D::with(0, [&](auto) {
        [&]<size_t... K>(std::index_sequence<K...>) {
            auto one = [&]<size_t Q>(std::integral_constant<size_t, Q>) {
                using P = Pinned<D::at(Q)>;
                for (int i = 0; i < 20; ++i) {
                    int const x = static_cast<int>(r.below(9)), y = static_cast<int>(r.below(9)), how = static_cast<int>(r.below(7));
                    int const before = P::made - P::gone, made = P::made;
                    {
                        Arg a{x}, b{y};
                        std::optional<V> v;
                        P *p = nullptr;
                        switch (how) {
                            case 0: v.emplace(std::in_place_type<P>, a); break;
                            case 1: v.emplace(std::in_place_type<P>, std::move(b)); break;
                            case 2: v.emplace(std::in_place_type<P>, a, std::move(b)); break;
                            case 3: v.emplace(); p = &v->template emplace<D::at(Q)>(a); break;
                            case 4: v.emplace(); p = &v->template emplace<D::at(Q)>(std::move(b)); break;
                            case 5: v.emplace(); p = &v->template emplace<D::at(Q)>(a, std::move(b)); break;
                            default: v.emplace(); p = &v->template emplace<D::at(Q)>(); break;
                        }
                        int const k = how == 6 ? 3 : how % 3;
                        int const val = k == 0 ? x : k == 1 ? y : k == 2 ? x * 10 + y : 0;
                        int const expect_made = 1 + (how > 2 && Q == 0 ? 1 : 0); // the default is T<first>
                        P &q = v->template get<D::at(Q)>();
                        if (q.v != val || q.lvalue != (k == 0 || k == 2) || q.rvalue != (k == 1 || k == 2) || a.v != x || b.v != (q.rvalue ? -1 : y) || (p && p != &q) || P::made - made != expect_made || P::made - P::gone != before + 1)
                            vt::fail("itv:arguments", "%s: construction %d of T<%lld> gives %d from lvalue %d rvalue %d, %d objects made", D::name().c_str(), how, static_cast<long long>(D::at(Q)), q.v, q.lvalue, q.rvalue, P::made - made);
                        auto cat = [&]<class X>(X &&e) -> int { return &e == static_cast<void const *>(&q) ? std::is_lvalue_reference_v<X> ? std::is_const_v<std::remove_reference_t<X>> ? 2 : 1 : std::is_const_v<X> ? 4 : 3 : 0; };
                        int const c1 = v->visit(cat), c2 = std::as_const(*v).visit(cat), c3 = std::move(*v).visit(cat), c4 = std::move(std::as_const(*v)).visit(cat);
                        if (c1 != 1 || c2 != 2 || c3 != 3 || c4 != 4) vt::fail("itv:visit-category", "%s: visit passes categories %d %d %d %d", D::name().c_str(), c1, c2, c3, c4);
                        vt::count("constructions_in_place");
                    }
                    if (P::made - P::gone != before) vt::fail("itv:pinned-lifetime", "%s: %d objects alive", D::name().c_str(), P::made - P::gone - before);
                    vt::distinct(vt::hash_str(D::name()) * 31 + Q * 1000 + static_cast<uint64_t>(how * 100 + x * 10 + y));
                }
            };
            (one(std::integral_constant<size_t, K>{}), ...);
        }(std::make_index_sequence<D::N>{});
    });
}
template<class IX, IX At> void empty_range(vt::Rng &) {
    using V = dtl::integral_template_variant<At, At, Plain>;
    V a, b{a}, c{std::move(a)};
    b = c;
    int calls = 0;
    b.visit([&](auto const &) { ++calls; });
    if (!(b == c) || b != c || b < c || std::hash<V>{}(b) != std::hash<V>{}(c) || calls != 1) vt::fail("itv:empty", "empty range");
    vt::count("empty_index_ranges");
    vt::distinct(static_cast<uint64_t>(At));
}
