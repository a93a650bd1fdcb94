// C12: pool / pool_allocator.  Oracle: a shadow map of live blocks (interval, alignment, fill pattern) over everything allocated, whichever
// pool it came from; a model of which pool every allocator shares; with POOL_OWN_NEW the process-wide operator new is replaced to count
// what is taken from the system and to make it fail at a chosen call.
#include "ledger.hpp"
#include "vt.hpp"
#include <dice/template-library/pool_allocator.hpp>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <unordered_map>
#include <vector>

namespace dtl = dice::template_library;

#ifdef POOL_OWN_NEW
namespace sys {
static uint64_t calls, live, live_bytes, peak;
static long fail_in = -1, fail_len = 1; // calls fail_in .. fail_in + fail_len - 1 fail
static bool on;
static void *get(size_t n, size_t al, bool nt) {
    if (on && fail_in > 0) --fail_in;
    else if (on && fail_in == 0 && fail_len-- > 0) {
        if (nt) return nullptr;
        throw std::bad_alloc{};
    }
    size_t head = std::max<size_t>(al, 16);
    if (n > SIZE_MAX / 2) {
        if (nt) return nullptr;
        throw std::bad_alloc{};
    }
    char *raw = static_cast<char *>(al > 16 ? std::aligned_alloc(al, (n + head + al - 1) / al * al) : malloc(n + head));
    if (!raw) {
        if (nt) return nullptr;
        throw std::bad_alloc{};
    }
    vt::scrub(raw + head, n, 0xA7);
    *reinterpret_cast<size_t *>(raw + head - 8) = n;
    ++live;
    live_bytes += n;
    if (on) ++calls, peak = std::max(peak, live_bytes);
    return raw + head;
}
static void put(void *p, size_t al) noexcept {
    if (!p) return;
    size_t head = std::max<size_t>(al, 16);
    char *c = static_cast<char *>(p);
    --live;
    live_bytes -= *reinterpret_cast<size_t *>(c - 8);
    free(c - head);
}
} // namespace sys
void *operator new(size_t n) { return sys::get(n, 16, false); }
void *operator new[](size_t n) { return sys::get(n, 16, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return sys::get(n, 16, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return sys::get(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return sys::get(n, static_cast<size_t>(a), false); }
void *operator new[](size_t n, std::align_val_t a) { return sys::get(n, static_cast<size_t>(a), false); }
void operator delete(void *p) noexcept { sys::put(p, 16); }
void operator delete[](void *p) noexcept { sys::put(p, 16); }
void operator delete(void *p, size_t) noexcept { sys::put(p, 16); }
void operator delete[](void *p, size_t) noexcept { sys::put(p, 16); }
void operator delete(void *p, std::nothrow_t const &) noexcept { sys::put(p, 16); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { sys::put(p, 16); }
void operator delete(void *p, std::align_val_t a) noexcept { sys::put(p, static_cast<size_t>(a)); }
void operator delete[](void *p, std::align_val_t a) noexcept { sys::put(p, static_cast<size_t>(a)); }
void operator delete(void *p, size_t, std::align_val_t a) noexcept { sys::put(p, static_cast<size_t>(a)); }
void operator delete[](void *p, size_t, std::align_val_t a) noexcept { sys::put(p, static_cast<size_t>(a)); }
#endif

struct Shadow {
    struct B { size_t n, al; uint64_t seed; };
    std::map<uintptr_t, B> live;
    uint64_t next = 1;
    std::string *log = nullptr;
    static unsigned char pat(uint64_t seed, size_t i) { return static_cast<unsigned char>((seed * 2654435761u) >> 3 ^ (i * 131 + (i >> 8))); }
    void add(void *p, size_t n, size_t al) {
        if (!p) return vt::fail_s("null-block", vt::fmt("%zu bytes | ", n) + *log);
        auto a = reinterpret_cast<uintptr_t>(p);
        if (a % al) vt::fail_s("misaligned", vt::fmt("%zu bytes aligned %zu at ...%03zx | ", n, al, a & 0xfff) + *log);
        if (n == 0) return;
        auto it = live.upper_bound(a + n - 1);
        if (it != live.begin()) {
            auto pr = std::prev(it);
            if (pr->first + pr->second.n > a) {
                vt::fail_s("overlap", vt::fmt("new block of %zu bytes overlaps a live block of %zu bytes at distance %td | ", n, pr->second.n, static_cast<std::ptrdiff_t>(pr->first - a)) + *log);
                return;
            }
        }
        uint64_t s = next++;
        auto *c = static_cast<unsigned char *>(p);
        for (size_t i = 0; i < n; ++i) c[i] = pat(s, i);
        live.emplace(a, B{n, al, s});
        vt::count("blocks_checked");
        vt::count("bytes_patterned", n);
    }
    bool check(void *p) {
        auto it = live.find(reinterpret_cast<uintptr_t>(p));
        if (it == live.end()) return true; // zero-sized or already reported
        auto *c = static_cast<unsigned char *>(p);
        for (size_t i = 0; i < it->second.n; ++i)
            if (c[i] != pat(it->second.seed, i)) {
                vt::fail_s("contents-changed", vt::fmt("byte %zu of a live block of %zu bytes | ", i, it->second.n) + *log);
                return false;
            }
        return true;
    }
    void del(void *p) {
        check(p);
        live.erase(reinterpret_cast<uintptr_t>(p));
    }
    void check_all() {
        for (auto &[a, b] : live)
            if (!check(reinterpret_cast<void *>(a))) break;
    }
};

template<size_t... Bs>
struct Cfg {
    using pool = dtl::pool<Bs...>;
    template<class T> using alloc = dtl::pool_allocator<T, Bs...>;
    static constexpr size_t sizes[] = {Bs...};
    static constexpr size_t max = std::max({Bs...});
    static std::string name() {
        std::string s;
        for (auto b : sizes) s += vt::fmt("%zu,", b);
        return s;
    }
};
template<class F> void each_cfg(uint64_t i, F &&f) {
    switch (i % 10) {
        case 0: f(Cfg<8>{}); break;
        case 1: f(Cfg<16, 32, 64>{}); break;
        case 2: f(Cfg<1>{}); break;
        case 3: f(Cfg<3, 5, 24>{}); break;
        case 4: f(Cfg<8, 12, 20, 48, 100>{}); break;
        case 5: f(Cfg<24>{}); break;
        case 6: f(Cfg<40, 72>{}); break;
        case 7: f(Cfg<4, 4096>{}); break;
        case 8: f(Cfg<1, 2, 4, 8, 16, 32, 64, 128, 256>{}); break;
        default: f(Cfg<16, 16, 17>{}); break;
    }
}
template<class C> size_t pick_size(vt::Rng &r) {
    switch (r.below(6)) {
        case 0: return r.below(C::max + 1);
        case 1: return C::max + r.below(3 * C::max + 2);
        case 2: return r.below(16);
        default: {
            size_t b = C::sizes[r.below(std::size(C::sizes))];
            long d = static_cast<long>(r.in(-1, 1));
            return d < 0 && b == 0 ? 0 : b + static_cast<size_t>(d);
        }
    }
}

template<class C>
static void raw(vt::Rng &r) {
    std::string log = "buckets " + C::name() + " ";
    Shadow sh;
    sh.log = &log;
    std::vector<std::optional<typename C::pool>> pools(1 + r.below(2));
    for (auto &p : pools) p.emplace();
    struct L { size_t pool; void *p; size_t n; };
    std::vector<L> live;
    int ops = 20 + static_cast<int>(r.below(200));
    unsigned grow = 40 + static_cast<unsigned>(r.below(45));
    for (int i = 0; i < ops; ++i) {
        if (live.empty() || r.chance(grow)) {
            L l{r.below(pools.size()), nullptr, pick_size<C>(r)};
            if (log.size() < 600) log += vt::fmt("+%zu:%zu ", l.pool, l.n);
            l.p = pools[l.pool]->allocate(l.n);
            sh.add(l.p, l.n, 1);
            live.push_back(l);
        } else {
            size_t k = r.below(live.size());
            if (log.size() < 600) log += vt::fmt("-%zu:%zu ", live[k].pool, live[k].n);
            sh.del(live[k].p);
            pools[live[k].pool]->deallocate(live[k].p, live[k].n);
            live[k] = live.back();
            live.pop_back();
        }
        if (r.chance(3)) sh.check_all();
    }
    sh.check_all();
    // what came from a bucket goes away with the pool, the rest is returned
    bool all = r.coin();
    if (!all) vt::count("pools_dropped_with_live_blocks");
    for (auto &l : live)
        if (all || l.n > C::max) {
            sh.del(l.p);
            pools[l.pool]->deallocate(l.p, l.n);
        }
    pools.clear();
    vt::distinct(vt::mix(vt::hash_str(log), live.size()));
    if (vt::want_sample("raw history")) vt::sample("raw history", log);
}

// element types
struct T1 { char c; };
struct T3 { char c[3]; };
struct T8 { double d; };
struct T12 { int i[3]; };
struct alignas(16) T16 { char c[16]; };
struct alignas(16) T48 { char c[48]; };
struct T24 { void *p[3]; };
struct alignas(32) T32 { char c[32]; };
struct alignas(64) T128 { char c[128]; };
struct alignas(4096) T4096 { char c[4096]; };
struct T100 { char c[100]; };

template<class C, class T>
static void use(vt::Rng &r, typename C::template alloc<T> a, typename C::template alloc<T> b, Shadow &sh, std::vector<std::function<void()>> &frees, std::string &log) {
    size_t n = r.chance(60) ? 1 : r.below(5);
    if (r.chance(4)) {
        // counts that cannot be represented
        size_t huge = SIZE_MAX / sizeof(T) + 1 + r.below(3);
        if (sizeof(T) > 1) {
            vt::count("unrepresentable_sizes");
            T *p = nullptr;
            try {
                p = a.allocate(huge);
            } catch (std::exception const &) {
                vt::count("unrepresentable_sizes_rejected");
                return;
            }
            vt::fail_s("short-block", vt::fmt("allocate(%zu) of %zu byte elements returned a block | ", huge, sizeof(T)) + log);
            (void) p;
            return;
        }
    }
    if (log.size() < 600) log += vt::fmt("T%zu/%zu*%zu ", sizeof(T), alignof(T), n);
    T *p = a.allocate(n);
    sh.add(p, n * sizeof(T), alignof(T));
    if (alignof(T) > 8) vt::count("strictly_aligned_blocks");
    frees.push_back([p, n, b, &sh]() mutable {
        sh.del(p);
        b.deallocate(p, n);
    });
}

template<class C>
static void typed(vt::Rng &r) {
    std::string log = "buckets " + C::name() + " ";
    Shadow sh;
    sh.log = &log;
    using A8 = typename C::template alloc<T8>;
    struct Slot { std::optional<A8> a; int pool = -1; };
    std::vector<Slot> slots(5);
    std::vector<std::shared_ptr<typename C::pool>> known;
    int next_pool = 0;
    std::vector<std::function<void()>> frees;
    auto check_slots = [&] {
        for (size_t i = 0; i < slots.size(); ++i)
            for (size_t j = 0; j < slots.size(); ++j) {
                if (!slots[i].a || !slots[j].a) continue;
                bool eq = slots[i].pool == slots[j].pool;
                if ((*slots[i].a == *slots[j].a) != eq || (*slots[i].a != *slots[j].a) == eq)
                    vt::fail_s("equality", vt::fmt("allocators %zu and %zu should%s share a pool | ", i, j, eq ? "" : " not") + log);
                if ((slots[i].a->underlying_pool() == slots[j].a->underlying_pool()) != eq || !slots[i].a->underlying_pool())
                    vt::fail_s("underlying-pool", vt::fmt("allocators %zu and %zu | ", i, j) + log);
            }
    };
    int ops = 15 + static_cast<int>(r.below(60));
    for (int i = 0; i < ops; ++i) {
        size_t x = r.below(slots.size()), y = r.below(slots.size());
        Slot &sx = slots[x], &sy = slots[y];
        char const *nm = "";
        switch (r.below(14)) {
            case 0:
                if (sx.a) break;
                nm = "new";
                sx.a.emplace();
                sx.pool = next_pool++;
                break;
            case 1: {
                if (sx.a) break;
                nm = "new-over";
                auto p = std::make_shared<typename C::pool>();
                sx.a.emplace(p);
                sx.pool = next_pool++;
                VT_CHECK("underlying-pool", sx.a->underlying_pool() == p);
                if (r.coin() && !sy.a) {
                    sy.a.emplace(p);
                    sy.pool = sx.pool;
                }
                break;
            }
            case 2:
                if (sx.a || !sy.a) break;
                nm = "copy";
                sx.a.emplace(*sy.a);
                sx.pool = sy.pool;
                break;
            case 3:
                if (sx.a || !sy.a) break;
                nm = "move";
                sx.a.emplace(std::move(*sy.a));
                sx.pool = sy.pool; // the moved-from allocator keeps its value
                break;
            case 4:
                if (!sx.a || !sy.a) break;
                nm = "assign";
                *sx.a = *sy.a;
                sx.pool = sy.pool;
                break;
            case 5:
                if (!sx.a || !sy.a) break;
                nm = "move-assign";
                *sx.a = std::move(*sy.a);
                sx.pool = sy.pool;
                if (x != y && r.coin()) { // a = std::move(b) only promises a; use b if it says it is equal
                    if (!(*sx.a == *sy.a)) {
                        sy.a.reset();
                        sy.pool = -1;
                    }
                } else if (x != y) {
                    sy.a.reset();
                    sy.pool = -1;
                }
                break;
            case 6: {
                if (!sx.a || !sy.a) break;
                nm = "swap";
                swap(*sx.a, *sy.a);
                std::swap(sx.pool, sy.pool);
                break;
            }
            case 7: {
                if (sx.a || !sy.a) break;
                nm = "rebind";
                using A3 = typename std::allocator_traits<A8>::template rebind_alloc<T3>;
                A3 mid(*sy.a);
                A8 back(mid);
                VT_CHECK("rebind-equality", back == *sy.a);
                sx.a.emplace(std::move(back));
                sx.pool = sy.pool;
                break;
            }
            case 8:
                if (sx.a || !sy.a) break;
                nm = "soccc";
                sx.a.emplace(std::allocator_traits<A8>::select_on_container_copy_construction(*sy.a));
                sx.pool = sy.pool;
                break;
            case 9:
                nm = "drop";
                sx.a.reset();
                sx.pool = -1;
                break;
            case 10:
                if (frees.empty()) break;
                nm = "free";
                {
                    size_t k = r.below(frees.size());
                    frees[k]();
                    frees[k] = std::move(frees.back());
                    frees.pop_back();
                }
                break;
            default: {
                if (!sx.a) break;
                nm = "alloc";
                // free later through another allocator of the same pool when there is one
                A8 &other = sy.a && sy.pool == sx.pool ? *sy.a : *sx.a;
                switch (r.below(11)) {
                    case 0: use<C, T1>(r, *sx.a, other, sh, frees, log); break;
                    case 1: use<C, T3>(r, *sx.a, other, sh, frees, log); break;
                    case 2: use<C, T8>(r, *sx.a, other, sh, frees, log); break;
                    case 3: use<C, T12>(r, *sx.a, other, sh, frees, log); break;
                    case 4: use<C, T16>(r, *sx.a, other, sh, frees, log); break;
                    case 5: use<C, T48>(r, *sx.a, other, sh, frees, log); break;
                    case 6: use<C, T24>(r, *sx.a, other, sh, frees, log); break;
                    case 7: use<C, T32>(r, *sx.a, other, sh, frees, log); break;
                    case 8: use<C, T128>(r, *sx.a, other, sh, frees, log); break;
                    case 9: use<C, T4096>(r, *sx.a, other, sh, frees, log); break;
                    default: use<C, T100>(r, *sx.a, other, sh, frees, log); break;
                }
            }
        }
        if (log.size() < 600 && *nm) log += vt::fmt("%s(%zu,%zu) ", nm, x, y);
        if (r.chance(10)) {
            check_slots();
            sh.check_all();
        }
    }
    check_slots();
    sh.check_all();
    for (auto &f : frees) f();
    vt::distinct(vt::hash_str(log));
    if (vt::want_sample("typed history")) vt::sample("typed history", log);
}

// containers keep working over shared pools, also after being moved from
template<class C>
static void containers(vt::Rng &r) {
    using str = std::basic_string<char, std::char_traits<char>, typename C::template alloc<char>>;
    using obj = ledger::Obj<12, 0>;
    typename C::template alloc<int> base, other;
    {
        std::vector<int, typename C::template alloc<int>> v(base), v2(r.coin() ? base : other);
        std::list<str, typename C::template alloc<str>> l(base), l2(r.coin() ? base : other);
        std::map<int, str, std::less<>, typename C::template alloc<std::pair<int const, str>>> m(base), m2(other);
        std::unordered_map<int, int, std::hash<int>, std::equal_to<>, typename C::template alloc<std::pair<int const, int>>> u(base);
        std::deque<T16, typename C::template alloc<T16>> d(base);
        std::vector<obj, typename C::template alloc<obj>> o(base), o2(other);
        std::vector<int> mv, mv2;
        std::list<std::string> ml, ml2;
        std::map<int, std::string> mm, mm2;
        std::unordered_map<int, int> mu;
        std::deque<int> md;
        std::vector<int> mo, mo2;
        auto word = [&] { return std::string(r.below(40), static_cast<char>('a' + r.below(26))); };
        int ops = 60 + static_cast<int>(r.below(100));
        for (int i = 0; i < ops; ++i) {
            int k = static_cast<int>(r.below(30));
            switch (r.below(18)) {
                case 0: v.push_back(k), mv.push_back(k); break;
                case 1: { auto w = word(); l.emplace_back(w.c_str(), base), ml.push_back(w); break; }
                case 2: { auto w = word(); m.insert_or_assign(k, str(w.c_str(), base)), mm.insert_or_assign(k, w); break; }
                case 3: u[k] = i, mu[k] = i; break;
                case 4: d.push_back(T16{}), d.back().c[0] = static_cast<char>(k), md.push_back(k); break;
                case 5: if (!l.empty()) l.pop_front(), ml.pop_front(); break;
                case 6: m.erase(k), mm.erase(k); break;
                case 7: u.erase(k), mu.erase(k); break;
                case 8: if (!d.empty()) d.pop_front(), md.pop_front(); break;
                case 9: v2 = std::move(v), mv2 = std::move(mv), v.clear(), mv.clear(), v.push_back(k), mv.push_back(k); break;
                case 10: l2 = l, ml2 = ml; break;
                case 11: std::swap(l, l2), std::swap(ml, ml2); break;
                case 12: m2 = std::move(m), mm2 = std::move(mm), m.clear(), mm.clear(); break;
                case 13: std::swap(v, v2), std::swap(mv, mv2); break;
                case 14: o.emplace_back(k), mo.push_back(k); break;
                case 15: { auto c = o; std::swap(c, o2); auto mc = mo; std::swap(mc, mo2); break; }
                case 16: { auto t = std::move(o); o.clear(), mo.clear(), o.emplace_back(k), mo.push_back(k); break; }
                default: u.rehash(r.below(64)); break;
            }
        }
        auto same_s = [](auto const &a, auto const &b) {
            return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](auto const &x, auto const &y) { return std::string_view(x) == y; });
        };
        auto same_m = [](auto const &a, auto const &b) {
            return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](auto const &x, auto const &y) { return x.first == y.first && std::string_view(x.second) == y.second; });
        };
        VT_CHECK("container-contents", std::equal(v.begin(), v.end(), mv.begin(), mv.end()) && std::equal(v2.begin(), v2.end(), mv2.begin(), mv2.end()), "vector");
        VT_CHECK("container-contents", same_s(l, ml) && same_s(l2, ml2), "list");
        VT_CHECK("container-contents", same_m(m, mm) && same_m(m2, mm2), "map");
        VT_CHECK("container-contents", u.size() == mu.size() && std::all_of(u.begin(), u.end(), [&](auto &p) { return mu.count(p.first) && mu[p.first] == p.second; }), "unordered_map");
        VT_CHECK("container-contents", d.size() == md.size() && std::equal(d.begin(), d.end(), md.begin(), [](T16 const &t, int x) { return t.c[0] == x; }), "deque");
        auto so = [](auto const &a, auto const &b) { return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](auto const &x, int y) { return x.get() == y; }); };
        VT_CHECK("container-contents", so(o, mo) && so(o2, mo2), "objects");
        vt::count("container_operations", static_cast<uint64_t>(ops));
        vt::distinct(vt::mix(mv.size() * 1000 + ml.size(), mm.size() * 77 + mu.size() * 7919 + static_cast<uint64_t>(ops)));
    }
    ledger::expect_live(0, "containers destroyed");
    ledger::reset();
}

#ifdef POOL_OWN_NEW
// churn with a bounded number of live blocks does not keep taking memory from the system; dropping the pool returns all of it
template<class C>
static void reuse(vt::Rng &r) {
    std::string log = "buckets " + C::name() + " ";
    uint64_t before = sys::live, bytes_before = sys::live_bytes;
    {
        typename C::pool p;
        std::vector<std::pair<void *, size_t>> live;
        auto sz = [&] { return std::clamp<size_t>(pick_size<C>(r), 1, C::max); };
        size_t n = sz(), m = sz(), cap = 1 + r.below(60);
        live.reserve(cap + 1);
        auto fill = [&] {
            while (live.size() < cap) {
                size_t k = r.coin() ? n : m;
                live.emplace_back(p.allocate(k), k);
            }
        };
        // warm-up: cap blocks of each size, so that later mixes fit into what was seen
        for (size_t k : {n, m}) {
            for (size_t i = 0; i < cap; ++i) live.emplace_back(p.allocate(k), k);
            if (r.coin())
                for (auto &[q, s] : live) p.deallocate(q, s), live.clear();
        }
        for (auto &[q, s] : live) p.deallocate(q, s);
        live.clear();
        uint64_t warm = sys::live_bytes - bytes_before, allocs = 0;
        sys::on = true;
        sys::peak = 0;
        while (allocs < 6000 + 60 * cap) {
            size_t had = live.size();
            fill();
            allocs += live.size() - had;
            for (size_t i = live.size(); i-- > 1;) std::swap(live[i], live[r.below(i + 1)]);
            size_t keep = r.below(cap);
            while (live.size() > keep) {
                p.deallocate(live.back().first, live.back().second);
                live.pop_back();
            }
        }
        sys::on = false;
        uint64_t top = sys::peak - std::min(sys::peak, bytes_before);
        vt::count("reuse_cycles", allocs);
        // never more live blocks than during warm-up: memory use must not grow with the number of allocations
        if (top > 3 * warm + 4096)
            vt::fail_s("no-reuse", vt::fmt("system memory grew from %llu to %llu bytes over %llu allocations with at most %zu live blocks of %zu and %zu bytes | ", (unsigned long long) warm, (unsigned long long) top, (unsigned long long) allocs, cap, n, m) + log);
    }
    if (sys::live != before) vt::fail_s("not-released", vt::fmt("%lld system blocks, %lld bytes remain after the pool is gone | ", (long long) (sys::live - before), (long long) (sys::live_bytes - bytes_before)) + log);
    vt::distinct(vt::mix(vt::hash_str(log), r.u64()));
}
// running out of memory is reported as bad_alloc and leaves pool and live blocks intact
template<class C>
static void exhaustion(vt::Rng &r) {
    std::string log = "buckets " + C::name() + " ";
    Shadow sh;
    sh.log = &log;
    uint64_t before;
    {
        before = sys::live;
        std::vector<std::pair<void *, size_t>> live;
        live.reserve(400);
        typename C::pool p;
        for (int i = 0; i < 150; ++i) {
            if (!live.empty() && r.chance(25)) {
                size_t k = r.below(live.size());
                sh.del(live[k].first);
                p.deallocate(live[k].first, live[k].second);
                live[k] = live.back();
                live.pop_back();
                continue;
            }
            size_t n = pick_size<C>(r);
            if (r.chance(30)) sys::fail_in = static_cast<long>(r.below(2)), sys::fail_len = r.coin() ? 1 : 100;
            void *q = nullptr;
            bool threw = false;
            sys::on = true;
            try {
                q = p.allocate(n);
            } catch (std::bad_alloc const &) {
                threw = true;
            }
            sys::on = false;
            sys::fail_in = -1;
            if (threw) {
                vt::count("system_failures_reported");
                continue;
            }
            sh.add(q, n, 1);
            live.emplace_back(q, n);
        }
        sh.check_all();
        {
            // the size itself is unreasonable
            sys::on = true;
            try {
                void *q = p.allocate(SIZE_MAX - r.below(64));
                vt::fail_s("short-block", "a block of nearly SIZE_MAX bytes | " + log);
                (void) q;
            } catch (std::bad_alloc const &) {
                vt::count("huge_sizes_rejected");
            }
            sys::on = false;
        }
        for (auto &[q, n] : live) {
            sh.del(q);
            p.deallocate(q, n);
        }
    }
    if (sh.live.empty() && sys::live < before) vt::fail_s("released-twice", log);
    if (sys::live > before) vt::fail_s("not-released", vt::fmt("%lld system blocks | ", (long long) (sys::live - before)) + log);
    vt::distinct(vt::mix(vt::hash_str(log), r.u64()));
}
#endif

static void vt_main() {
#ifdef POOL_OWN_NEW
    for (char const *c : {"blocks_checked", "bytes_patterned", "reuse_cycles", "system_failures_reported", "huge_sizes_rejected"}) vt::count(c, 0); // their map nodes are not the pool's
    vt::run("reuse", 2000, [](vt::Rng &r, uint64_t i) { each_cfg(i, [&]<class C>(C) { reuse<C>(r); }); });
    vt::run("exhaustion", 4000, [](vt::Rng &r, uint64_t i) { each_cfg(i, [&]<class C>(C) { exhaustion<C>(r); }); });
    vt::run("typed", 6000, [](vt::Rng &r, uint64_t i) { each_cfg(i, [&]<class C>(C) { typed<C>(r); }); });
#else
    vt::run("raw", 3000, [](vt::Rng &r, uint64_t i) { each_cfg(i, [&]<class C>(C) { raw<C>(r); }); });
    vt::run("typed", 4000, [](vt::Rng &r, uint64_t i) { each_cfg(i, [&]<class C>(C) { typed<C>(r); }); });
    vt::run("containers", 1500, [](vt::Rng &r, uint64_t i) {
        if (i % 3 == 0) containers<Cfg<16, 32, 64>>(r);
        else if (i % 3 == 1) containers<Cfg<24>>(r);
        else containers<Cfg<8, 12, 20, 48, 100>>(r);
    });
#endif
}
VT_MAIN
