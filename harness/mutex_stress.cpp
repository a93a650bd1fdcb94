// C05/C06: real threads on mutex<T> / shared_mutex<T> under ThreadSanitizer / AddressSanitizer.
// Oracles: sanitizer reports; guard-owner census (atomic counters of live guards); no lost updates; heap-owning value intact.
#include "vt.hpp"
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <memory>
#include <optional>
#include <thread>

namespace dtl = dice::template_library;
struct Val {
    std::vector<int> v;
    long n = 0;
    std::string s = "a-heap-allocated-string-that-does-not-fit-inline";
};
struct Stop {};

template<class M, bool Shared>
void one_case(vt::Rng &r, uint64_t) {
    M m(std::in_place, Val{});
    unsigned nt = 2 + static_cast<unsigned>(r.below(5)), iters = 60 + static_cast<unsigned>(r.below(200));
    std::atomic<int> writers{0}, readers{0}, bad{0};
    std::atomic<long> incs{0}, shared_seen{0}, try_fail{0};
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < nt; ++i) seeds.push_back(r.u64());
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            vt::Rng rr(seeds[t]);
            // relaxed census: adds no happens-before edges that could hide a race
            auto write = [&](auto &g) {
                if (writers.fetch_add(1, std::memory_order_relaxed) != 0 || readers.load(std::memory_order_relaxed) != 0) bad = 1;
                g->v.push_back(static_cast<int>(g->n));
                ++g->n;
                if (rr.below(8) == 0) std::this_thread::yield();
                if (g->v.size() > 50) g->v.clear();
                g->s[static_cast<size_t>(g->n) % g->s.size()] = 'a';
                incs.fetch_add(1, std::memory_order_relaxed);
                writers.fetch_sub(1, std::memory_order_relaxed);
            };
            auto read = [&](auto &g) {
                readers.fetch_add(1, std::memory_order_relaxed);
                if (writers.load(std::memory_order_relaxed) != 0) bad = 2;
                long sum = g->n;
                for (int x : g->v) sum += x;
                if (sum < 0) bad = 3;
                if (readers.load(std::memory_order_relaxed) > 1) shared_seen.fetch_add(1, std::memory_order_relaxed);
                readers.fetch_sub(1, std::memory_order_relaxed);
            };
            for (unsigned i = 0; i < iters; ++i) {
                unsigned k = static_cast<unsigned>(rr.below(Shared ? 7 : 4));
                if constexpr (Shared) {
                    if (k >= 4) {
                        M const &cm = m;
                        if (k == 6) {
                            if (auto g = cm.try_lock_shared()) read(*g);
                            else try_fail.fetch_add(1, std::memory_order_relaxed);
                        } else {
                            auto g = cm.lock_shared();
                            read(g);
                            if (k == 5) {
                                auto h = std::move(g);
                                read(h);
                            }
                        }
                        continue;
                    }
                }
                switch (k) {
                    case 0: {
                        auto g = m.lock();
                        write(g);
                        break;
                    }
                    case 1: {
                        auto g = m.try_lock();
                        if (g) {
                            write(*g);
                            auto h = std::move(*g);
                            write(h);
                            g.reset(); // the moved-from guard must not release
                            write(h);
                        } else try_fail.fetch_add(1, std::memory_order_relaxed);
                        break;
                    }
                    case 2:
                        try {
                            auto g = m.lock();
                            write(g);
                            throw Stop{};
                        } catch (Stop const &) {
                        }
                        break;
                    default: {
                        std::optional<std::remove_cvref_t<decltype(m.lock())>> keep;
                        {
                            auto g = m.lock();
                            keep.emplace(std::move(g));
                        }
                        write(*keep);
                    }
                }
            }
        });
    for (auto &t : th) t.join();
    if (bad) vt::fail("exclusion", "overlapping guards (code %d)", bad.load());
    auto g = m.try_lock();
    if (!g) vt::fail("leaked-lock", "lock still held after all guards died");
    else if ((*g)->n != incs) vt::fail("lost-update", "n=%ld, increments=%ld", (*g)->n, incs.load());
    vt::count("guarded_writes", static_cast<uint64_t>(incs.load()));
    vt::count("reads_while_another_reader_is_inside", static_cast<uint64_t>(shared_seen.load()));
    vt::count("failed_try_locks", static_cast<uint64_t>(try_fail.load()));
    vt::distinct(vt::mix(seeds[0], static_cast<uint64_t>(try_fail.load())));
    if (vt::want_sample("stress")) vt::sample("stress", vt::fmt("%u threads x %u operations, %ld guarded writes", nt, iters, incs.load()));
}

static void vt_main() {
    if (getenv("MUTEX_SHARED")) vt::run("shared-mutex-stress", 100, [](vt::Rng &r, uint64_t i) { one_case<dtl::shared_mutex<Val>, true>(r, i); });
    else vt::run("mutex-stress", 100, [](vt::Rng &r, uint64_t i) { one_case<dtl::mutex<Val>, false>(r, i); });
}
VT_MAIN
