// C11 (sequential part): random histories over copies, moves, swaps and rebinds of limit_allocators with a monitored, failing upstream.
// Oracle: upstream's own registry of live bytes per control block vs. the limit; success/failure exactly as the remaining quota says.
#include "mon_alloc.hpp"
#include <array>
#include <dice/template-library/limit_allocator.hpp>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace dtl = dice::template_library;
using dtl::limit_allocator_syncness;

template<class T> using Up0 = mon::Mon<T, 0>;
template<class T> using Up1 = mon::Mon<T, mon::pocca | mon::pocma | mon::pocs>;
template<class T> using Up2 = mon::Mon<T, mon::pocma | mon::soccc>;
struct Big { char x[24]; };
struct alignas(32) Al { char x[96]; };

static size_t live_bytes(int id) {
    size_t n = 0;
    for (auto &[p, b] : mon::reg().blocks)
        if (b.id == id) n += b.bytes;
    return n;
}

template<template<class> class Up, limit_allocator_syncness S>
struct Prog {
    template<class T> using L = dtl::limit_allocator<T, Up, S>;
    static constexpr int N = 5;
    struct Group { size_t limit, used; int id; };
    std::vector<Group> groups;
    std::array<std::unique_ptr<L<int>>, N> s;
    int g[N];
    struct Blk { void *p; size_t n; int type; int group; unsigned char fill; };
    std::vector<Blk> blocks;
    std::string log;
    vt::Rng &r;
    explicit Prog(vt::Rng &rr) : r(rr) {}
    void bad(char const *key, std::string m) { vt::fail_s(key, m + " | " + log); }
    template<class F> static void with_type(int t, F &&f) {
        if (t == 0) f.template operator()<char>();
        else if (t == 1) f.template operator()<int>();
        else if (t == 2) f.template operator()<Big>();
        else f.template operator()<Al>();
    }
    void fresh(int k) {
        int id = static_cast<int>(groups.size()) + 1;
        size_t lim = r.chance(10) ? 0 : r.chance(10) ? ~size_t(0) : r.below(2000);
        groups.push_back({lim, 0, id});
        log += vt::fmt("new(%d,limit %zu) ", k, lim);
        Up<int> up(id);
        switch (r.below(3)) {
            case 0: s[k] = std::make_unique<L<int>>(lim, up); break;
            case 1: s[k] = std::make_unique<L<int>>(lim, Up<int>(id)); break;
            default: s[k] = std::make_unique<L<int>>(lim, std::in_place, id);
        }
        g[k] = id - 1;
    }
    void step() {
        int k = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
        switch (r.below(12)) {
            case 0: fresh(k); break;
            case 1:
                if (!s[j]) break;
                log += vt::fmt("copy(%d<-%d) ", k, j);
                s[k] = std::make_unique<L<int>>(std::as_const(*s[j]));
                g[k] = g[j];
                break;
            case 2:
                if (!s[j] || j == k) break;
                log += vt::fmt("move(%d<-%d) ", k, j); // moving an allocator leaves its value unchanged
                s[k] = std::make_unique<L<int>>(std::move(*s[j]));
                g[k] = g[j];
                break;
            case 3:
                if (!s[j] || !s[k]) break;
                log += vt::fmt("assign(%d<-%d) ", k, j);
                if (r.coin() || j == k) *s[k] = std::as_const(*s[j]);
                else *s[k] = std::move(*s[j]);
                g[k] = g[j];
                break;
            case 4:
                if (!s[j] || !s[k]) break;
                log += vt::fmt("swap(%d,%d) ", k, j);
                {
                    using std::swap;
                    swap(*s[k], *s[j]);
                }
                std::swap(g[k], g[j]);
                break;
            case 5: case 6: case 7: case 8: {
                if (!s[k]) break;
                Group &gr = groups[static_cast<size_t>(g[k])];
                int t = static_cast<int>(r.below(4));
                with_type(t, [&]<class T>() {
                    size_t left = gr.limit - gr.used, fit = std::min<size_t>(left / sizeof(T), 100000);
                    size_t n;
                    switch (r.below(7)) {
                        case 0: n = 0; break;
                        case 1: n = fit; break;
                        case 2: n = fit + 1; break;
                        case 3: n = ~size_t(0) / sizeof(T) + 1 + r.below(3); break; // n * sizeof(T) is not representable (unless sizeof(T) is 1)
                        case 4: n = ~size_t(0) / sizeof(T) - r.below(3); break;
                        default: n = r.below(40);
                    }
                    if (n > 100000 && n <= left / sizeof(T)) n = 7; // would really be attempted
                    bool fits = n <= left / sizeof(T);
                    bool inject = r.chance(15);
                    log += vt::fmt("alloc(%d,%zu*%zu%s) ", k, n, sizeof(T), inject ? "!" : "");
                    L<T> a(*s[k]);
                    if (inject) mon::reg().fail_in = 0;
                    uint64_t fails = mon::reg().failures, allocs = mon::reg().allocs;
                    try {
                        T *p = std::allocator_traits<L<T>>::allocate(a, n);
                        mon::reg().fail_in = -1;
                        if (!fits) return bad("over-limit", vt::fmt("%zu*%zu bytes allocated with %zu of %zu left", n, sizeof(T), left, gr.limit));
                        if (inject) return bad("swallowed", "the upstream failure did not reach the caller");
                        gr.used += n * sizeof(T);
                        unsigned char f = static_cast<unsigned char>(r.u64());
                        std::memset(static_cast<void *>(p), f, n * sizeof(T));
                        blocks.push_back({p, n, t, g[k], f});
                        vt::count("allocations");
                    } catch (std::bad_alloc const &) {
                        mon::reg().fail_in = -1;
                        bool upstream_failed = mon::reg().failures != fails;
                        if (upstream_failed) vt::count("upstream_failures");
                        else vt::count("limit_rejections");
                        if (fits && !upstream_failed) bad("under-limit", vt::fmt("%zu*%zu bytes rejected with %zu of %zu left", n, sizeof(T), left, gr.limit));
                        if (mon::reg().allocs != allocs) bad("failed-but-allocated", "upstream allocated although the allocation failed");
                    }
                });
                break;
            }
            case 9: case 10: {
                if (blocks.empty()) break;
                size_t i = r.below(blocks.size());
                Blk b = blocks[i];
                int via = -1;
                for (int q = 0; q < N; ++q)
                    if (s[q] && g[q] == b.group && (via < 0 || r.coin())) via = q;
                if (via < 0) break;
                release(i, *s[via]);
                break;
            }
            default:
                log += vt::fmt("drop(%d) ", k);
                if (s[k]) {
                    // the last allocator of a group with live blocks stays
                    bool other = false;
                    for (int q = 0; q < N; ++q) other |= q != k && s[q] && g[q] == g[k];
                    if (!other && groups[static_cast<size_t>(g[k])].used) break;
                    s[k].reset();
                }
        }
    }
    void release(size_t i, L<int> const &via) {
        Blk b = blocks[i];
        log += vt::fmt("free(%zu) ", i);
        with_type(b.type, [&]<class T>() {
            auto *q = static_cast<unsigned char *>(b.p);
            for (size_t x = 0; x < b.n * sizeof(T); ++x)
                if (q[x] != b.fill) { bad("content", "block content changed"); break; }
            L<T> a(via);
            std::allocator_traits<L<T>>::deallocate(a, static_cast<T *>(b.p), b.n);
            groups[static_cast<size_t>(b.group)].used -= b.n * sizeof(T);
        });
        blocks.erase(blocks.begin() + static_cast<long>(i));
    }
    void run() {
        mon::reset();
        fresh(0);
        unsigned n = 5 + static_cast<unsigned>(r.below(50));
        for (unsigned i = 0; i < n; ++i) {
            step();
            for (auto &gr : groups) {
                size_t l = live_bytes(gr.id);
                if (l != gr.used) bad("live-bytes", vt::fmt("upstream has %zu bytes live, expected %zu", l, gr.used));
                if (l > gr.limit) bad("over-limit", vt::fmt("%zu bytes live, limit %zu", l, gr.limit));
            }
            for (int a = 0; a < N; ++a)
                for (int b = 0; b < N; ++b)
                    if (s[a] && s[b] && ((*s[a] == *s[b]) != (g[a] == g[b]) || (*s[a] != *s[b]) == (g[a] == g[b]))) bad("equality", vt::fmt("allocators %d and %d", a, b));
            for (int a = 0; a < N; ++a)
                if (s[a] && s[a]->upstream_allocator().id != groups[static_cast<size_t>(g[a])].id) bad("upstream", "upstream_allocator()");
            vt::count("operations");
            uint64_t h = 0;
            for (auto &gr : groups) h = vt::mix(h, gr.used * 31 + gr.limit);
            vt::distinct(vt::mix(h, vt::hash_str(log)));
            if (vt::st().failures) return;
        }
        // everything returned: the whole quota must be available again in every group
        while (!blocks.empty()) {
            int via = -1;
            for (int q = 0; q < N; ++q)
                if (s[q] && g[q] == blocks.back().group) via = q;
            if (via < 0) {
                // all allocators of the group were reassigned: return through upstream only
                with_type(blocks.back().type, [&]<class T>() { Up<T>(groups[static_cast<size_t>(blocks.back().group)].id).deallocate(static_cast<T *>(blocks.back().p), blocks.back().n); });
                blocks.pop_back();
                continue;
            }
            release(blocks.size() - 1, *s[via]);
        }
        for (int q = 0; q < N; ++q)
            if (s[q]) {
                Group &gr = groups[static_cast<size_t>(g[q])];
                if (gr.used || gr.limit > 100000) continue;
                L<char> a(*s[q]);
                try {
                    char *p = a.allocate(gr.limit);
                    a.deallocate(p, gr.limit);
                } catch (std::bad_alloc const &) {
                    bad("quota-leaked", vt::fmt("the full quota of %zu is not available after everything was freed", gr.limit));
                }
            }
        mon::expect_blocks(0, log.c_str());
        if (vt::want_sample(vt::st().cur_suite)) vt::sample(vt::st().cur_suite, log);
    }
};

// containers over the allocator: live bytes stay below the limit, container stays usable after bad_alloc, after being moved from, and returns everything
template<template<class> class Up, limit_allocator_syncness S>
void containers(vt::Rng &r, uint64_t) {
    mon::reset();
    size_t limit = 200 + r.below(3000);
    {
        dtl::limit_allocator<int, Up, S> base(limit, Up<int>(1));
        uint64_t failed = 0;
        auto drive = [&](auto make, auto add) {
            auto c = make();
            auto d = make();
            std::vector<int> want, dwant;
            for (int i = 0; i < 60; ++i) {
                int x = static_cast<int>(r.below(1000000));
                try {
                    switch (r.below(20)) {
                        case 0: { auto t = std::move(c); c = make(); c = std::move(t); break; }
                        case 1: { auto t(c); if (t != c) vt::fail("container", "copy differs"); break; }
                        case 2: d = c; dwant = want; break;
                        case 3: { auto t = std::move(c); add(c, 1); c.clear(); c = std::move(t); break; } // the moved-from container is still usable
                        case 4: c.clear(); want.clear(); break;
                        default: add(c, x); want.push_back(x);
                    }
                } catch (std::bad_alloc const &) {
                    ++failed;
                    c.clear();
                    want.clear();
                    d.clear();
                    dwant.clear();
                }
                if (live_bytes(1) + live_bytes(101) > limit) vt::fail("over-limit", "%zu bytes live, limit %zu", live_bytes(1), limit);
                if (c.size() != want.size() || d.size() != dwant.size()) vt::fail("container", "size %zu expected %zu", c.size(), want.size());
            }
        };
        using std::list;
        using std::vector;
        drive([&] { return vector<int, dtl::limit_allocator<int, Up, S>>(base); }, [](auto &c, int x) { c.push_back(x); });
        drive([&] { return list<int, dtl::limit_allocator<int, Up, S>>(dtl::limit_allocator<int, Up, S>(base)); }, [](auto &c, int x) { c.push_front(x); });
        drive([&] { return std::basic_string<char, std::char_traits<char>, dtl::limit_allocator<char, Up, S>>(dtl::limit_allocator<char, Up, S>(base)); }, [](auto &c, int x) { c.push_back(static_cast<char>('a' + x % 26)); });
        {
            using P = std::pair<int const, Big>;
            std::multimap<int, Big, std::less<int>, dtl::limit_allocator<P, Up, S>> m{dtl::limit_allocator<P, Up, S>(base)};
            for (int i = 0; i < 100; ++i) {
                try {
                    m.emplace(static_cast<int>(r.below(50)), Big{});
                } catch (std::bad_alloc const &) {
                    ++failed;
                    if (!m.empty()) m.erase(m.begin());
                }
                if (live_bytes(1) > limit) vt::fail("over-limit", "%zu bytes live, limit %zu", live_bytes(1), limit);
            }
        }
        auto sp = std::allocate_shared<int>(base, 5);
        sp.reset();
        vt::count("container_bad_allocs", failed);
        if (live_bytes(1)) vt::fail("leaked-blocks", "containers left %zu bytes", live_bytes(1));
        dtl::limit_allocator<char, Up, S> a(base);
        try {
            a.deallocate(a.allocate(limit), limit);
        } catch (std::bad_alloc const &) {
            vt::fail("quota-leaked", "quota of %zu not available after the containers were destroyed", limit);
        }
        try {
            (void) a.allocate(limit + 1);
            vt::fail("over-limit", "limit + 1 bytes allocated after the containers were destroyed");
        } catch (std::bad_alloc const &) {
        }
    }
    mon::expect_blocks(0, "containers");
    vt::distinct(vt::mix(limit, r.u64()));
}

static void vt_main() {
    using enum limit_allocator_syncness;
    vt::run("sync", 4000, [](vt::Rng &r, uint64_t) { Prog<Up0, sync>(r).run(); });
    vt::run("sync-propagate", 2000, [](vt::Rng &r, uint64_t) { Prog<Up1, sync>(r).run(); });
    vt::run("unsync", 4000, [](vt::Rng &r, uint64_t) { Prog<Up0, unsync>(r).run(); });
    vt::run("containers", 300, [](vt::Rng &r, uint64_t i) {
        containers<Up0, sync>(r, i);
        containers<Up1, sync>(r, i);
        containers<Up0, unsync>(r, i);
        containers<Up1, unsync>(r, i);
    });
    vt::run("select-on-copy", 100, [](vt::Rng &r, uint64_t) {
        mon::reset();
        dtl::limit_allocator<int, Up2> a(100, Up2<int>(3));
        auto b = std::allocator_traits<decltype(a)>::select_on_container_copy_construction(a);
        VT_CHECK("select-on-copy", b.upstream_allocator().id == 103);
        size_t n = r.below(25);
        int *p = a.allocate(n);
        bool threw = false;
        try {
            b.deallocate(b.allocate(25), 25);
        } catch (std::bad_alloc const &) {
            threw = true;
        }
        VT_CHECK("select-on-copy", threw == (n > 0)); // the quota is shared
        a.deallocate(p, n);
        static_assert(std::is_same_v<std::allocator_traits<decltype(a)>::propagate_on_container_move_assignment, std::true_type>
                      && std::is_same_v<std::allocator_traits<decltype(a)>::propagate_on_container_copy_assignment, std::false_type>
                      && std::is_same_v<std::allocator_traits<decltype(a)>::is_always_equal, std::false_type>);
    });
    vt::run("default-upstream", 50, [](vt::Rng &r, uint64_t) {
        size_t lim = r.below(400);
        dtl::limit_allocator<int> a(lim);
        size_t n = r.below(120);
        try {
            int *p = a.allocate(n);
            VT_CHECK("over-limit", n * 4 <= lim);
            a.deallocate(p, n);
        } catch (std::bad_alloc const &) {
            VT_CHECK("under-limit", n * 4 > lim);
        }
    });
}
VT_MAIN
