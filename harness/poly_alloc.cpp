// C13: polymorphic_allocator and offset_ptr_stl_allocator.  Oracle: every underlying allocator keeps a ledger of the exact calls it gets
// (family, identity, element type, count, pointer); a model says which underlying allocator every polymorphic_allocator must be using.
#include "vt.hpp"
#include <boost/container/list.hpp>
#include <boost/container/map.hpp>
#include <boost/container/vector.hpp>
#include <boost/container/string.hpp>
#include <deque>
#include <dice/template-library/polymorphic_allocator.hpp>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <unordered_map>
#include <vector>

namespace dtl = dice::template_library;

namespace led {
struct Rec { int fam, id; size_t n; std::type_info const *t; };
static std::map<void *, Rec> blocks;
static std::vector<std::pair<char, Rec>> calls;
static std::vector<void *> ptrs;
static bool trace;
static long fail_in = -1;
static void reset() {
    for (auto &[p, r] : blocks) ::operator delete(p, std::align_val_t{64});
    blocks.clear();
    calls.clear();
    ptrs.clear();
    trace = false;
    fail_in = -1;
}
} // namespace led

enum : unsigned { POCCA = 1, POCMA = 2, POCS = 4, AE = 8, SOC = 16, NODEF = 32 };
template<int Fam, unsigned F>
struct Family {
    template<class T>
    struct alloc {
        using value_type = T;
        using propagate_on_container_copy_assignment = std::bool_constant<(F & POCCA) != 0>;
        using propagate_on_container_move_assignment = std::bool_constant<(F & POCMA) != 0>;
        using propagate_on_container_swap = std::bool_constant<(F & POCS) != 0>;
        using is_always_equal = std::bool_constant<(F & AE) != 0>;
        template<class U> struct rebind { using other = typename Family<Fam, F>::template alloc<U>; };
        static constexpr int fam = Fam;
        int id;
        alloc() noexcept requires(!(F & NODEF)) : id(0) {}
        explicit alloc(int i) noexcept : id((F & AE) ? 0 : i) {}
        alloc(int a, int b) noexcept : id((F & AE) ? 0 : a * 10 + b) {}
        template<class U> alloc(typename Family<Fam, F>::template alloc<U> const &o) noexcept : id(o.id) {}
        // template argument deduction does not see through Family<>::alloc<U>: accept any allocator of the same family
        template<class O> requires(!std::is_same_v<O, alloc> && requires { O::fam; requires O::fam == Fam; })
        alloc(O const &o) noexcept : id(o.id) {}
        T *allocate(size_t n) {
            if (led::fail_in >= 0 && led::fail_in-- == 0) {
                led::fail_in = -1;
                throw std::bad_alloc{};
            }
            if (n > PTRDIFF_MAX / sizeof(T)) throw std::bad_array_new_length{};
            void *p = ::operator new(n * sizeof(T), std::align_val_t{64});
            led::Rec r{Fam, id, n, &typeid(T)};
            led::blocks.emplace(p, r);
            if (led::trace) led::calls.emplace_back('a', r), led::ptrs.push_back(p);
            vt::count("upstream_allocations");
            return static_cast<T *>(p);
        }
        void deallocate(T *p, size_t n) noexcept {
            auto it = led::blocks.find(p);
            if (it == led::blocks.end()) return vt::fail("dealloc-unknown", "family %d allocator %d got back a block that is not allocated", Fam, id);
            auto &r = it->second;
            if (r.fam != Fam || r.id != id) vt::fail("wrong-allocator", "block of family %d allocator %d returned to family %d allocator %d", r.fam, r.id, Fam, id);
            if (r.n != n || *r.t != typeid(T)) vt::fail("wrong-count-or-type", "%zu x %s returned as %zu x %s", r.n, r.t->name(), n, typeid(T).name());
            if (led::trace) led::calls.emplace_back('d', led::Rec{Fam, id, n, &typeid(T)}), led::ptrs.push_back(p);
            led::blocks.erase(it);
            ::operator delete(static_cast<void *>(p), std::align_val_t{64});
        }
        alloc select_on_container_copy_construction() const {
            alloc r(*this);
            if (F & SOC) r.id += 100;
            return r;
        }
        friend bool operator==(alloc const &a, alloc const &b) noexcept { return a.id == b.id; }
    };
    // the same through fancy pointers
    template<class T> using offset = dtl::offset_ptr_stl_allocator<T, alloc>;
};

struct Wide { char c[48]; };

// Set: describes one polymorphic_allocator instantiation
template<bool Off, unsigned F, int N>
struct Set {
    static constexpr unsigned flags = F;
    static constexpr int n = N;
    static constexpr bool off = Off;
    using F0 = Family<0, F>;
    using F1 = Family<1, F>;
    using F2 = Family<2, F>;
    template<class T> struct sel;
    template<class T> static auto type() {
        if constexpr (Off) {
            if constexpr (N == 1) return std::type_identity<dtl::polymorphic_allocator<T, Family<0, F>::template offset>>{};
            else if constexpr (N == 2) return std::type_identity<dtl::polymorphic_allocator<T, Family<0, F>::template offset, Family<1, F>::template offset>>{};
            else return std::type_identity<dtl::polymorphic_allocator<T, Family<0, F>::template offset, Family<1, F>::template offset, Family<2, F>::template offset>>{};
        } else {
            if constexpr (N == 1) return std::type_identity<dtl::polymorphic_allocator<T, Family<0, F>::template alloc>>{};
            else if constexpr (N == 2) return std::type_identity<dtl::polymorphic_allocator<T, Family<0, F>::template alloc, Family<1, F>::template alloc>>{};
            else return std::type_identity<dtl::polymorphic_allocator<T, Family<0, F>::template alloc, Family<1, F>::template alloc, Family<2, F>::template alloc>>{};
        }
    }
    template<class T> using poly = typename decltype(type<T>())::type;
    template<class T, int I> using inner = std::conditional_t<Off, typename Family<I, F>::template offset<T>, typename Family<I, F>::template alloc<T>>;
    template<class T, int I> static inner<T, I> make(int id) {
        if constexpr (Off) return inner<T, I>(std::in_place, id);
        else return inner<T, I>(id);
    }
    template<class T> static int held(poly<T> const &p) {
        int h = -1, c = 0;
        auto probe = [&]<int I>(std::integral_constant<int, I>) {
            bool a = p.template holds_allocator<inner<T, I>>();
            bool b;
            if constexpr (Off) b = p.template holds_allocator<Family<I, F>::template offset>();
            else b = p.template holds_allocator<Family<I, F>::template alloc>();
            if (a != b) vt::fail("holds", "holds_allocator<A<T>>() and holds_allocator<A>() disagree for alternative %d", I);
            if (a) h = I, ++c;
        };
        probe(std::integral_constant<int, 0>{});
        if constexpr (N > 1) probe(std::integral_constant<int, 1>{});
        if constexpr (N > 2) probe(std::integral_constant<int, 2>{});
        if constexpr (N == 1) { // allocators that are not part of the set are never held
            if (p.template holds_allocator<inner<T, 1>>()) c = 9;
            if constexpr (Off) c += p.template holds_allocator<Family<1, F>::template offset>();
            else c += p.template holds_allocator<Family<1, F>::template alloc>() + p.template holds_allocator<std::allocator>();
        }
        if (c != 1) vt::fail("holds", "%d alternatives report to be active", c);
        return h;
    }
};
struct Who {
    int fam = -1, id = 0;
    bool operator==(Who const &) const = default;
};

// one allocate/deallocate pair through p must show up, unchanged, at exactly who
template<class S, class T>
static auto alloc_checked(typename S::template poly<T> &p, size_t n, Who who, std::string const &log) {
    led::calls.clear();
    led::ptrs.clear();
    led::trace = true;
    auto q = std::allocator_traits<typename S::template poly<T>>::allocate(p, n);
    led::trace = false;
    vt::count("forwarded_allocations");
    T *raw = std::to_address(q);
    if (led::calls.size() != 1 || led::calls[0].first != 'a')
        vt::fail_s("forward-allocate", vt::fmt("%zu upstream calls for one allocate | ", led::calls.size()) + log);
    else {
        auto &r = led::calls[0].second;
        if (r.fam != who.fam || r.id != who.id) vt::fail_s("wrong-allocator", vt::fmt("allocate went to family %d allocator %d instead of %d %d | ", r.fam, r.id, who.fam, who.id) + log);
        if (r.n != n || *r.t != typeid(T)) vt::fail_s("wrong-count-or-type", vt::fmt("allocate(%zu) arrived as %zu x %s | ", n, r.n, r.t->name()) + log);
        if (led::ptrs[0] != raw) vt::fail_s("wrong-pointer", log);
    }
    if (n) std::memset(static_cast<void *>(raw), 0x5a, n * sizeof(T)); // usable through the pointer we got
    return q;
}
template<class S, class T, class P>
static void dealloc_checked(typename S::template poly<T> &p, P q, size_t n, Who who, std::string const &log) {
    led::calls.clear();
    led::ptrs.clear();
    led::trace = true;
    std::allocator_traits<typename S::template poly<T>>::deallocate(p, q, n);
    led::trace = false;
    if (led::calls.size() != 1 || led::calls[0].first != 'd' || led::calls[0].second.fam != who.fam || led::calls[0].second.id != who.id || led::calls[0].second.n != n)
        vt::fail_s("forward-deallocate", vt::fmt("%zu upstream calls | ", led::calls.size()) + log);
}

template<class S>
static void history(vt::Rng &r) {
    using A = typename S::template poly<int>;
    constexpr unsigned F = S::flags;
    std::string log = vt::fmt("%d allocators flags %u%s ", S::n, F, S::off ? " offset" : "");
    struct Slot { std::optional<A> a; Who w; };
    struct Blk { typename std::allocator_traits<A>::pointer p; size_t n; Who w; int v; };
    std::vector<Slot> sl(5);
    std::vector<std::unique_ptr<Blk>> live;
    auto verify = [&] {
        for (size_t i = 0; i < sl.size(); ++i) {
            if (!sl[i].a) continue;
            int h = S::template held<int>(*sl[i].a);
            if (h != sl[i].w.fam) vt::fail_s("holds", vt::fmt("allocator %zu holds alternative %d, expected %d | ", i, h, sl[i].w.fam) + log);
            for (size_t j = 0; j < sl.size(); ++j)
                if (sl[j].a) {
                    bool e = sl[i].w == sl[j].w;
                    if ((*sl[i].a == *sl[j].a) != e || (*sl[i].a != *sl[j].a) == e) vt::fail_s("equality", vt::fmt("allocators %zu and %zu should be %s | ", i, j, e ? "equal" : "unequal") + log);
                    vt::count(e ? "equal_pairs" : "unequal_pairs");
                }
        }
    };
    auto norm = [&](int id) { return (F & AE) ? 0 : id; };
    int ops = 15 + static_cast<int>(r.below(60));
    for (int i = 0; i < ops; ++i) {
        size_t x = r.below(sl.size()), y = r.below(sl.size());
        Slot &a = sl[x], &b = sl[y];
        char const *nm = "";
        int id = 1 + static_cast<int>(r.below(3)), fam = static_cast<int>(r.below(S::n));
        switch (r.below(15)) {
            case 0:
            case 1:
            case 2: {
                if (a.a) break;
                auto mk = [&]<int I>(std::integral_constant<int, I>) {
                    using In = typename S::template inner<int, I>;
                    switch (r.below(5)) {
                        case 0:
                            nm = "in-place-type";
                            if constexpr (S::off) a.a.emplace(std::in_place_type<In>, std::in_place, id);
                            else a.a.emplace(std::in_place_type<In>, id);
                            break;
                        case 1:
                            nm = "in-place-index";
                            if constexpr (S::off) a.a.emplace(std::in_place_index<static_cast<size_t>(I)>, std::in_place, id);
                            else a.a.emplace(std::in_place_index<static_cast<size_t>(I)>, id);
                            break;
                        case 2: {
                            nm = "from-lvalue";
                            In in = S::template make<int, I>(id);
                            a.a.emplace(in);
                            break;
                        }
                        case 3: {
                            nm = "from-const";
                            In const in = S::template make<int, I>(id);
                            a.a.emplace(in);
                            break;
                        }
                        default:
                            nm = "from-rvalue";
                            a.a.emplace(S::template make<int, I>(id));
                    }
                    a.w = {I, norm(id)};
                };
                if (fam == 0) mk(std::integral_constant<int, 0>{});
                if constexpr (S::n > 1)
                    if (fam == 1) mk(std::integral_constant<int, 1>{});
                if constexpr (S::n > 2)
                    if (fam == 2) mk(std::integral_constant<int, 2>{});
                break;
            }
            case 3:
                if (a.a) break;
                if constexpr (!(F & NODEF)) {
                    nm = "default";
                    a.a.emplace();
                    a.w = {0, 0};
                }
                break;
            case 4:
                if (a.a || !b.a) break;
                nm = "copy";
                a.a.emplace(*b.a);
                a.w = b.w;
                break;
            case 5:
                if (a.a || !b.a) break;
                nm = "move";
                a.a.emplace(std::move(*b.a));
                a.w = b.w; // the source keeps its value
                break;
            case 6:
                if (!a.a || !b.a) break;
                nm = "assign";
                *a.a = *b.a;
                a.w = b.w;
                break;
            case 7:
                if (!a.a || !b.a || x == y) break;
                nm = "move-assign";
                *a.a = std::move(*b.a);
                a.w = b.w;
                if (!(*b.a == *a.a)) b.a.reset();
                break;
            case 8:
                if (!a.a || !b.a) break;
                nm = "swap";
                swap(*a.a, *b.a);
                std::swap(a.w, b.w);
                break;
            case 9: {
                if (a.a || !b.a) break;
                nm = "rebind";
                using W = typename std::allocator_traits<A>::template rebind_alloc<Wide>;
                static_assert(std::is_same_v<W, typename S::template poly<Wide>>);
                W w(*b.a);
                size_t n = r.below(4);
                auto q = alloc_checked<S, Wide>(w, n, b.w, log);
                W w2(w);
                dealloc_checked<S, Wide>(w2, q, n, b.w, log);
                A back(w);
                VT_CHECK("rebind-equality", back == *b.a);
                a.a.emplace(std::move(back));
                a.w = b.w;
                vt::count("rebinds");
                break;
            }
            case 10:
                if (a.a || !b.a) break;
                nm = "soccc";
                a.a.emplace(std::allocator_traits<A>::select_on_container_copy_construction(*b.a));
                a.w = {b.w.fam, b.w.id + ((F & SOC) ? 100 : 0)};
                if ((F & SOC) && a.w.id > 1000) a.a.reset();
                break;
            case 11:
                nm = "drop";
                a.a.reset();
                break;
            case 12: {
                if (live.empty()) break;
                size_t k = r.below(live.size());
                for (auto &s : sl)
                    if (s.a && s.w == live[k]->w) {
                        nm = "free";
                        int *raw = std::to_address(live[k]->p);
                        for (size_t m = 0; m < live[k]->n; ++m)
                            if (raw[m] != live[k]->v + static_cast<int>(m)) {
                                vt::fail_s("contents", log);
                                break;
                            }
                        dealloc_checked<S, int>(*s.a, live[k]->p, live[k]->n, live[k]->w, log);
                        live[k] = std::move(live.back());
                        live.pop_back();
                        break;
                    }
                break;
            }
            default: {
                if (!a.a) break;
                nm = "alloc";
                size_t n = r.chance(10) ? 0 : r.below(40);
                if (r.chance(10)) {
                    led::fail_in = 0;
                    try {
                        (void) a.a->allocate(n);
                        vt::fail_s("failure-swallowed", log);
                    } catch (std::bad_alloc const &) {
                        vt::count("upstream_failures_forwarded");
                    }
                    led::fail_in = -1;
                    break;
                }
                auto q = alloc_checked<S, int>(*a.a, n, a.w, log);
                int v = static_cast<int>(r.below(1000));
                for (size_t m = 0; m < n; ++m) q[static_cast<std::ptrdiff_t>(m)] = v + static_cast<int>(m);
                live.push_back(std::make_unique<Blk>(q, n, a.w, v));
            }
        }
        if (log.size() < 600 && *nm) log += vt::fmt("%s(%zu,%zu:%d/%d) ", nm, x, y, fam, id);
        if (r.chance(20)) verify();
    }
    verify();
    // return what is left through freshly made allocators
    for (auto &b : live) {
        auto ret = [&]<int I>(std::integral_constant<int, I>) {
            if (b->w.fam != I) return;
            A a(S::template make<int, I>(b->w.id));
            if (!(F & AE) || b->w.id == 0) dealloc_checked<S, int>(a, b->p, b->n, b->w, log);
            else {
                void *raw = std::to_address(b->p);
                led::blocks.erase(raw);
                ::operator delete(raw, std::align_val_t{64});
            }
        };
        ret(std::integral_constant<int, 0>{});
        if constexpr (S::n > 1) ret(std::integral_constant<int, 1>{});
        if constexpr (S::n > 2) ret(std::integral_constant<int, 2>{});
    }
    if (!led::blocks.empty()) vt::fail_s("leaked-blocks", vt::fmt("%zu | ", led::blocks.size()) + log);
    vt::distinct(vt::hash_str(log));
    if (vt::want_sample("allocator history")) vt::sample("allocator history", log);
    led::reset();
}

template<class A, unsigned F, int N>
static constexpr bool traits_ok = std::allocator_traits<A>::propagate_on_container_copy_assignment::value == ((F & POCCA) != 0)
    && std::allocator_traits<A>::propagate_on_container_move_assignment::value == ((F & POCMA) != 0)
    && std::allocator_traits<A>::propagate_on_container_swap::value == ((F & POCS) != 0)
    && std::allocator_traits<A>::is_always_equal::value == (N == 1 && (F & AE) != 0);

template<class S>
static void containers(vt::Rng &r) {
    constexpr unsigned F = S::flags;
    using AI = typename S::template poly<int>;
    using AP = typename S::template poly<std::pair<int const, int>>;
    VT_CHECK("traits", (traits_ok<AI, F, S::n>), "flags %u, %d allocators", F, S::n);
    auto mk = [&](Who &w) -> AI {
        w.fam = static_cast<int>(r.below(S::n));
        w.id = (F & AE) ? 0 : 1 + static_cast<int>(r.below(3));
        if constexpr (S::n > 1)
            if (w.fam == 1) return AI(S::template make<int, 1>(w.id));
        if constexpr (S::n > 2)
            if (w.fam == 2) return AI(S::template make<int, 2>(w.id));
        return AI(S::template make<int, 0>(w.id));
    };
    auto like = [&](Who w) -> AI {
        if constexpr (S::n > 1)
            if (w.fam == 1) return AI(S::template make<int, 1>(w.id));
        if constexpr (S::n > 2)
            if (w.fam == 2) return AI(S::template make<int, 2>(w.id));
        return AI(S::template make<int, 0>(w.id));
    };
    using Vec = std::vector<int, AI>;
    using List = boost::container::list<int, AI>;
    using Map = boost::container::map<int, int, std::less<>, AP>;
    struct V { Vec c; Who w; std::vector<int> m; };
    struct L { List c; Who w; std::vector<int> m; };
    struct M { Map c; Who w; std::map<int, int> m; };
    std::string log = vt::fmt("%d allocators flags %u%s ", S::n, F, S::off ? " offset" : "");
    {
        std::vector<std::unique_ptr<V>> vs;
        std::vector<std::unique_ptr<L>> ls;
        std::vector<std::unique_ptr<M>> ms;
        for (int i = 0; i < 3; ++i) {
            Who w;
            auto a = mk(w);
            vs.push_back(std::unique_ptr<V>(new V{Vec(a), w, {}}));
            auto a2 = mk(w);
            ls.push_back(std::unique_ptr<L>(new L{List(a2), w, {}}));
            auto a3 = mk(w);
            ms.push_back(std::unique_ptr<M>(new M{Map(AP(a3)), w, {}}));
        }
        auto step = [&](auto &xs, auto &&add, auto &&sub) {
            size_t x = r.below(xs.size()), y = r.below(xs.size());
            auto &a = *xs[x], &b = *xs[y];
            using X = std::remove_reference_t<decltype(a)>;
            int k = static_cast<int>(r.below(50));
            switch (r.below(9)) {
                case 0:
                case 1:
                case 2: add(a, k); break;
                case 3: sub(a, k); break;
                case 4:
                    log += vt::fmt("=%zu,%zu ", x, y);
                    a.c = b.c;
                    if (x != y) a.m = b.m;
                    if ((F & POCCA) && x != y) a.w = b.w;
                    break;
                case 5:
                    if (x == y) break;
                    log += vt::fmt("m%zu,%zu ", x, y);
                    a.c = std::move(b.c);
                    a.m = b.m;
                    if (F & POCMA) a.w = b.w;
                    b.c.clear();
                    b.m.clear();
                    break;
                case 6:
                    if (!(F & POCS) && !(a.w == b.w)) break;
                    log += vt::fmt("s%zu,%zu ", x, y);
                    a.c.swap(b.c);
                    std::swap(a.m, b.m);
                    std::swap(a.w, b.w);
                    break;
                case 7: {
                    if (a.w.id > 500) break;
                    log += vt::fmt("c%zu ", x);
                    std::unique_ptr<X> n(new X{a.c, a.w, a.m});
                    if (F & SOC) n->w.id += 100;
                    xs[y] = std::move(n);
                    break;
                }
                default: {
                    log += vt::fmt("M%zu ", x);
                    Who w = a.w;
                    auto m = a.m;
                    std::unique_ptr<X> n(new X{std::move(a.c), w, m});
                    a.c.clear();
                    a.m.clear();
                    if (x != y) xs[y] = std::move(n);
                    break;
                }
            }
            auto &z = *xs[y];
            for (auto *p : {xs[x].get(), &z}) {
                if (!(AI(p->c.get_allocator()) == like(p->w)) && !(F & AE)) vt::fail_s("container-allocator", log);
                if (S::template held<int>(AI(p->c.get_allocator())) != p->w.fam) vt::fail_s("container-allocator", "family | " + log);
            }
        };
        int ops = 40 + static_cast<int>(r.below(80));
        for (int i = 0; i < ops; ++i) {
            switch (r.below(3)) {
                case 0: step(vs, [](V &v, int k) { v.c.push_back(k), v.m.push_back(k); }, [](V &v, int) { if (!v.m.empty()) v.c.pop_back(), v.m.pop_back(); }); break;
                case 1: step(ls, [](L &v, int k) { v.c.push_back(k), v.m.push_back(k); }, [](L &v, int) { if (!v.m.empty()) v.c.pop_back(), v.m.pop_back(); }); break;
                default: step(ms, [](M &v, int k) { v.c[k] = k * 3, v.m[k] = k * 3; }, [](M &v, int k) { v.c.erase(k), v.m.erase(k); });
            }
        }
        for (auto &v : vs) VT_CHECK("container-contents", std::equal(v->c.begin(), v->c.end(), v->m.begin(), v->m.end()), "vector %s", log.c_str());
        for (auto &v : ls) VT_CHECK("container-contents", std::equal(v->c.begin(), v->c.end(), v->m.begin(), v->m.end()), "list %s", log.c_str());
        for (auto &v : ms) VT_CHECK("container-contents", std::equal(v->c.begin(), v->c.end(), v->m.begin(), v->m.end(), [](auto const &p, auto const &q) { return p.first == q.first && p.second == q.second; }), "map %s", log.c_str());
        vt::count("container_operations", static_cast<uint64_t>(ops));
    }
    if (!led::blocks.empty()) vt::fail_s("leaked-blocks", vt::fmt("%zu | ", led::blocks.size()) + log);
    vt::distinct(vt::hash_str(log));
    if (vt::want_sample("container history")) vt::sample("container history", log);
    led::reset();
}

// offset_ptr_stl_allocator on its own
template<unsigned F>
static void offset(vt::Rng &r) {
    using Up = typename Family<0, F>::template alloc<int>;
    using A = dtl::offset_ptr_stl_allocator<int, Family<0, F>::template alloc>;
    int id = (F & AE) ? 0 : 1 + static_cast<int>(r.below(4)), id2 = (F & AE) ? 0 : 1 + static_cast<int>(r.below(4));
    Up const up(id);
    A a(up), b(Up{id2}), c(std::in_place, id / 10, id % 10);
    VT_CHECK("offset-upstream", a.upstream_allocator().id == id && b.upstream_allocator().id == id2 && std::as_const(c).upstream_allocator() == up);
    VT_CHECK("equality", (a == b) == (id == id2) && (a != b) == (id != id2) && a == c);
    std::string log = vt::fmt("offset %d %d", id, id2);
    size_t n = r.below(20);
    auto p = a.allocate(n);
    static_assert(std::is_same_v<decltype(p), boost::interprocess::offset_ptr<int>>);
    for (size_t i = 0; i < n; ++i) p[static_cast<std::ptrdiff_t>(i)] = static_cast<int>(i);
    int sum = 0;
    for (auto q = p; q != p + static_cast<std::ptrdiff_t>(n); ++q) sum += *q;
    VT_CHECK("offset-usable", sum == static_cast<int>(n * (n - 1) / 2) || n == 0);
    VT_CHECK("wrong-allocator", led::blocks.count(std::to_address(p)) && led::blocks.at(std::to_address(p)).id == id && led::blocks.at(std::to_address(p)).n == n);
    typename std::allocator_traits<A>::template rebind_alloc<Wide> w(a);
    auto pw = w.allocate(3);
    VT_CHECK("wrong-allocator", led::blocks.at(std::to_address(pw)).id == id && *led::blocks.at(std::to_address(pw)).t == typeid(Wide) && led::blocks.at(std::to_address(pw)).n == 3);
    swap(a, b);
    VT_CHECK("swap", a.upstream_allocator().id == id2 && b.upstream_allocator().id == id);
    A d(std::move(b));
    VT_CHECK("move", d == c);
    auto s = std::allocator_traits<A>::select_on_container_copy_construction(d);
    VT_CHECK("select-on-copy", s.upstream_allocator().id == id + ((F & SOC) ? 100 : 0));
    VT_CHECK("traits", (traits_ok<A, F, 1>));
    a = d;
    a.deallocate(p, n);
    typename std::allocator_traits<A>::template rebind_alloc<Wide>(d).deallocate(pw, 3);
    if (!led::blocks.empty()) vt::fail_s("leaked-blocks", log);
    led::reset();
    vt::distinct(static_cast<uint64_t>(id * 100 + id2 * 10) + n * 1000);
}

#ifndef PART
#define PART 0
#endif
template<class F> static void each(uint64_t i, F &&f) {
#if PART == 0
    switch (i % 4) {
        case 0: f(Set<false, 0, 1>{}); break;
        case 1: f(Set<false, POCCA | POCMA | POCS, 2>{}); break;
        case 2: f(Set<false, POCMA | NODEF, 3>{}); break;
        default: f(Set<true, SOC, 1>{}); break;
    }
#elif PART == 1
    switch (i % 4) {
        case 0: f(Set<false, SOC, 2>{}); break;
        case 1: f(Set<false, AE | POCMA, 1>{}); break;
        case 2: f(Set<true, POCCA | POCMA | POCS, 2>{}); break;
        default: f(Set<false, POCCA | SOC, 3>{}); break;
    }
#else
    switch (i % 4) {
        case 0: f(Set<false, AE | POCS, 2>{}); break;
        case 1: f(Set<true, SOC | POCS, 3>{}); break;
        case 2: f(Set<false, POCS | NODEF | SOC, 1>{}); break;
        default: f(Set<false, POCMA, 2>{});
    }
#endif
}
static void vt_main() {
    vt::run("history", 3000, [](vt::Rng &r, uint64_t i) { each(i, [&]<class S>(S) { history<S>(r); }); });
    vt::run("containers", 1500, [](vt::Rng &r, uint64_t i) { each(i, [&]<class S>(S) { containers<S>(r); }); });
    vt::run("offset", 500, [](vt::Rng &r, uint64_t i) {
        if (i % 3 == 0) offset<0>(r);
        else if (i % 3 == 1) offset<AE | POCMA>(r);
        else offset<SOC | POCCA | POCS>(r);
    });
}
VT_MAIN
