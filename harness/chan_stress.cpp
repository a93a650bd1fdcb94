// C03 (and free-running supplement of C01/C02/C04): real threads, many operations, under ThreadSanitizer or
// AddressSanitizer.  Oracles: sanitizer reports; each value received exactly once, unchanged; per-producer order seen by each
// consumer; live-element count never above capacity + in-flight; a sound "everyone asleep" stall detector.
#include "vt.hpp"
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
#include <memory>
#include <optional>
#include <string>
#include <sys/syscall.h>
#include <thread>

namespace dtl = dice::template_library;

static std::atomic<long> g_live{0};

struct StrElem { // heap-owning, copyable
    std::string s;
    explicit StrElem(uint64_t id) : s("element-with-a-long-heap-allocated-name-" + std::to_string(id)) { g_live.fetch_add(1, std::memory_order_relaxed); }
    StrElem(StrElem const &o) : s(o.s) { g_live.fetch_add(1, std::memory_order_relaxed); }
    StrElem(StrElem &&o) noexcept : s(std::move(o.s)) { g_live.fetch_add(1, std::memory_order_relaxed); }
    StrElem &operator=(StrElem const &) = default;
    StrElem &operator=(StrElem &&) = default;
    ~StrElem() { g_live.fetch_sub(1, std::memory_order_relaxed); }
    uint64_t id() const {
        auto p = s.rfind('-');
        return p == std::string::npos || p + 1 >= s.size() ? ~0ull : strtoull(s.c_str() + p + 1, nullptr, 10);
    }
};
struct PtrElem { // move-only
    std::unique_ptr<std::pair<uint64_t, uint64_t>> p;
    explicit PtrElem(uint64_t id) : p(new std::pair<uint64_t, uint64_t>(id, ~id)) { g_live.fetch_add(1, std::memory_order_relaxed); }
    PtrElem(PtrElem &&o) noexcept : p(std::move(o.p)) { g_live.fetch_add(1, std::memory_order_relaxed); }
    PtrElem &operator=(PtrElem &&) = default;
    ~PtrElem() { g_live.fetch_sub(1, std::memory_order_relaxed); }
    uint64_t id() const { return p && p->second == ~p->first ? p->first : ~0ull; }
};
struct BigElem { // trivially copyable, large: torn copies are visible
    uint64_t w[9];
    explicit BigElem(uint64_t id) { for (auto &x : w) x = id; }
    uint64_t id() const {
        for (auto x : w) if (x != w[0]) return ~0ull;
        return w[0];
    }
};

struct Watch { // stall detector: every worker asleep in the kernel, nothing done for a long time
    std::vector<std::atomic<int>> tids;
    std::vector<std::atomic<uint64_t>> prog;
    explicit Watch(size_t n) : tids(n), prog(n) {}
};
static char thread_state(int tid) {
    char path[64], buf[512];
    snprintf(path, sizeof path, "/proc/self/task/%d/stat", tid);
    FILE *f = fopen(path, "r");
    if (!f) return '?';
    size_t n = fread(buf, 1, sizeof buf - 1, f);
    fclose(f);
    buf[n] = 0;
    char *p = strrchr(buf, ')');
    return p && p[1] ? p[2] : '?';
}

static void jitter(vt::Rng &r) {
    switch (r.below(12)) {
        case 0: std::this_thread::yield(); break;
        case 1: for (volatile int i = 0; i < 300; i = i + 1) {} break;
        default: break;
    }
}

template<class Ch> constexpr bool is_fifo = requires(Ch &c) { c.try_pop(); c.try_emplace(1ull); };

template<class Ch, class E>
void one_case(vt::Rng &r, uint64_t) {
    constexpr bool fifo = is_fifo<Ch>;
    unsigned np = 1 + static_cast<unsigned>(r.below(4)), nc = 1 + static_cast<unsigned>(r.below(4));
    unsigned per = 40 + static_cast<unsigned>(r.below(300));
    size_t cap = r.coin() ? 1 + r.below(3) : 1 + r.below(64);
    bool early_close = r.chance(25);
    long base_live = g_live.load();
    auto ch = [&] {
        if constexpr (fifo) return std::make_unique<Ch>(cap);
        else return std::make_unique<Ch>();
    }();
    Ch &c = *ch;
    std::vector<std::vector<uint64_t>> sent(np), got(nc);
    std::atomic<unsigned> producers_left{np};
    std::atomic<bool> closing{false};
    Watch w(np + nc);
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < np + nc; ++i) seeds.push_back(r.u64());
    std::vector<std::thread> th;
    std::atomic<unsigned> alive{np + nc};
    std::atomic<unsigned> go{0};
    unsigned const total = np + nc;
    for (unsigned p = 0; p < np; ++p) {
        th.emplace_back([&, p] {
            vt::Rng rr(seeds[p]);
            w.tids[p] = static_cast<int>(syscall(SYS_gettid));
            go.fetch_add(1);
            while (go.load(std::memory_order_relaxed) < total) std::this_thread::yield();
            for (unsigned i = 0; i < per; ++i) {
                uint64_t id = (static_cast<uint64_t>(p) << 32) | i;
                bool ok = false, was_try = false;
                switch (rr.below(4)) {
                    case 0: ok = c.push(E(id)); break;
                    case 1:
                        if constexpr (std::is_copy_constructible_v<E>) {
                            E e(id);
                            ok = c.push(e);
                            if (e.id() != id) vt::fail("argument-modified", "push(const&) modified its argument");
                        } else ok = c.emplace(id);
                        break;
                    case 2:
                        if constexpr (fifo) {
                            was_try = true;
                            ok = c.try_emplace(id);
                            break;
                        }
                        [[fallthrough]];
                    default: ok = c.emplace(id);
                }
                if (ok) sent[p].push_back(id);
                else if (!was_try && !c.closed()) vt::fail("push-failed-open", "blocking push returned false on an open channel");
                w.prog[p].fetch_add(1, std::memory_order_relaxed);
                if (early_close && rr.below(per * np) == 0) c.close();
                jitter(rr);
            }
            if (producers_left.fetch_sub(1) == 1) c.close();
            alive.fetch_sub(1);
        });
    }
    for (unsigned k = 0; k < nc; ++k) {
        th.emplace_back([&, k] {
            vt::Rng rr(seeds[np + k]);
            w.tids[np + k] = static_cast<int>(syscall(SYS_gettid));
            go.fetch_add(1);
            while (go.load(std::memory_order_relaxed) < total) std::this_thread::yield();
            if (rr.coin()) {
                for (auto &e : c) {
                    got[k].push_back(e.id());
                    w.prog[np + k].fetch_add(1, std::memory_order_relaxed);
                    jitter(rr);
                    if (e.id() != got[k].back()) vt::fail("torn", "element changed while held by the iterator");
                }
            } else {
                for (;;) {
                    if (rr.below(3) == 0) {
                        auto x = c.try_pop();
                        if (x) got[k].push_back(x->id());
                    } else {
                        auto x = c.pop();
                        if (!x) break;
                        got[k].push_back(x->id());
                    }
                    w.prog[np + k].fetch_add(1, std::memory_order_relaxed);
                    jitter(rr);
                }
                if (!c.closed()) vt::fail("end-before-close", "pop reported the end on an open channel");
            }
            alive.fetch_sub(1);
        });
    }
    // stall detection from this thread
    uint64_t last = 0;
    unsigned still = 0;
    while (alive.load() > 0) {
        std::this_thread::sleep_for(std::chrono::milliseconds(still ? 20 : 1));
        uint64_t sum = 0;
        bool asleep = true;
        for (unsigned i = 0; i < total; ++i) {
            sum += w.prog[i].load(std::memory_order_relaxed);
            int tid = w.tids[i].load();
            char s = tid ? thread_state(tid) : 'R';
            if (s != 'S' && s != '?' && s != 'Z') asleep = false;
        }
        sum = sum * 64 + alive.load();
        still = sum == last && asleep ? still + 1 : 0;
        last = sum;
        if (still > 250) { // 5 s in which no thread was ever runnable and nothing was done: nobody can wake anybody any more
            vt::fail("stall", "all %u remaining threads asleep for good (cap %zu, %u producers, %u consumers, closed=%d)", alive.load(), cap, np, nc, static_cast<int>(c.closed()));
            fflush(stdout);
            vt::finish();
            _exit(10);
        }
    }
    for (auto &t : th) t.join();
    std::vector<uint64_t> rest;
    while (auto x = c.try_pop()) rest.push_back(x->id());
    size_t ns = 0, ng = rest.size();
    std::map<uint64_t, int> seen;
    for (auto &v : sent) {
        ns += v.size();
        for (auto x : v) seen[x] |= 1;
    }
    got.push_back(rest);
    for (auto &v : got) {
        if (&v != &got.back()) ng += v.size();
        std::map<uint64_t, int64_t> lastp;
        for (auto x : v) {
            int &m = seen[x];
            if (!(m & 1)) vt::fail("foreign-value", "received %llx which was never accepted", static_cast<unsigned long long>(x));
            if (m & 2) vt::fail("duplicate", "received %llx twice", static_cast<unsigned long long>(x));
            m |= 2;
            auto &lp = lastp.emplace(x >> 32, -1).first->second;
            int64_t i = static_cast<int64_t>(x & 0xffffffff);
            if (i <= lp) vt::fail("order", "producer %llu: value %lld received after %lld", static_cast<unsigned long long>(x >> 32), static_cast<long long>(i), static_cast<long long>(lp));
            lp = i;
        }
    }
    if (fifo && ng != ns) vt::fail("lost", "%zu accepted, %zu received", ns, ng);
    if (!fifo && ng > ns) vt::fail("extra", "%zu accepted, %zu received", ns, ng);
    if (!fifo && ns) {
        // the globally last accepted value cannot be lost: it is the last one of some producer
        bool some_last = false;
        for (auto &v : sent)
            if (!v.empty() && (seen[v.back()] & 2)) some_last = true;
        if (!some_last) vt::fail("last-value-lost", "no producer's last accepted value was delivered");
    }
    vt::count("values_sent", ns);
    vt::count("values_received", ng);
    vt::count("threads", np + nc);
    ch.reset();
    if (g_live.load() != base_live) vt::fail("leak", "%ld elements alive after destruction", g_live.load() - base_live);
    uint64_t h = np * 8 + nc;
    for (auto &v : got)
        for (auto x : v) h = vt::mix(h, x);
    vt::distinct(h);
    if (vt::want_sample("stress")) vt::sample("stress", vt::fmt("%u producers x %u values, %u consumers, cap %zu: %zu accepted, %zu received", np, per, nc, cap, ns, ng));
}

// destruction with elements inside; iterators over several channels copied/moved/assigned/swapped/destroyed while holding elements
template<class Ch, class E>
void iter_case(vt::Rng &r, uint64_t) {
    constexpr bool fifo = is_fifo<Ch>;
    long base = g_live.load();
    {
        size_t const nch = 1 + r.below(3);
        std::vector<std::unique_ptr<Ch>> chs;
        for (size_t i = 0; i < nch; ++i) {
            if constexpr (fifo) chs.push_back(std::make_unique<Ch>(64));
            else chs.push_back(std::make_unique<Ch>());
        }
        struct Want { size_t ch; uint64_t v; };
        uint64_t next = 1;
        std::vector<Want> want;
        std::vector<typename Ch::iterator> its;
        std::vector<std::vector<uint64_t>> q(nch);
        auto fill = [&](size_t c, unsigned n) {
            for (unsigned i = 0; i < n; ++i) {
                if (q[c].size() >= 60) break;
                if (!chs[c]->emplace(next)) break;
                if (!fifo) q[c].clear();
                q[c].push_back(next++);
            }
        };
        auto take = [&](size_t c) {
            uint64_t v = q[c].front();
            q[c].erase(q[c].begin());
            return Want{c, v};
        };
        std::string log;
        its.reserve(64);
        for (unsigned s = 0; s < 40; ++s) {
            // every channel holds a value, so that nothing in here blocks
            for (size_t c = 0; c < nch; ++c)
                if (q[c].empty() || r.coin()) fill(c, 1 + static_cast<unsigned>(r.below(3)));
            unsigned op = static_cast<unsigned>(r.below(8));
            size_t const i = r.below(its.size()), j = r.below(its.size());
            log += vt::fmt("%u.%zu.%zu ", op, i, j);
            if (its.empty() || (op == 0 && its.size() < 20)) {
                size_t c = r.below(nch);
                its.push_back(chs[c]->begin());
                want.push_back(take(c));
            } else if (op == 1 || op == 7) {
                if (op == 1) ++its[i];
                else its[i]++;
                want[i] = take(want[i].ch);
            } else if (op == 2 && its.size() < 20) {
                if constexpr (std::is_copy_constructible_v<E>) {
                    its.push_back(its[i]);
                    auto w = want[i];
                    want.push_back(w);
                }
            } else if (op == 3 && its.size() < 20) {
                typename Ch::iterator moved(std::move(its[i]));
                its.push_back(std::move(moved));
                auto w = want[i];
                want.push_back(w);
                its.erase(its.begin() + static_cast<long>(i)); // shifts by move assignment (= swap)
                want.erase(want.begin() + static_cast<long>(i));
            } else if (op == 4) {
                if constexpr (std::is_copy_constructible_v<E>) {
                    its[i] = its[j];
                    want[i] = want[j];
                }
            } else if (op == 5 && its.size() > 1) {
                if (i != j) {
                    std::swap(its[i], its[j]);
                    std::swap(want[i], want[j]);
                }
            } else if (op == 6) {
                its.erase(its.begin() + static_cast<long>(i));
                want.erase(want.begin() + static_cast<long>(i));
            }
            for (size_t k = 0; k < its.size(); ++k) {
                if (its[k] == chs[0]->end()) vt::fail("iterator-empty", "iterator lost its element | %zu channels %s", nch, log.c_str());
                else if ((*its[k]).id() != want[k].v || its[k]->id() != want[k].v || (*std::as_const(its[k])).id() != want[k].v || std::as_const(its[k])->id() != want[k].v)
                    vt::fail("iterator-value", "iterator holds %llu, expected %llu | %zu channels %s", static_cast<unsigned long long>((*its[k]).id()), static_cast<unsigned long long>(want[k].v), nch, log.c_str());
            }
            vt::count("iterator_states");
        }
        for (size_t c = 0; c < nch; ++c) {
            if (!r.coin()) continue;
            chs[c]->close();
            for (size_t k = 0; k < its.size(); ++k) {
                if (want[k].ch != c) continue;
                while (!q[c].empty() && r.coin()) {
                    ++its[k];
                    if (its[k] == chs[c]->end() || its[k]->id() != q[c].front()) vt::fail("drain-order", "iteration after close out of order | %zu channels %s", nch, log.c_str());
                    take(c);
                }
            }
            std::vector<uint64_t> rest;
            for (auto &e : *chs[c]) rest.push_back(e.id());
            if (rest != q[c]) vt::fail("drain", "draining after close lost or invented values | %zu channels %s", nch, log.c_str());
            auto e = chs[c]->begin();
            if (!(e == chs[c]->end())) vt::fail("end", "no end after drain");
        }
        vt::distinct(vt::mix(next, r.s));
    }
    if (g_live.load() != base) vt::fail("leak", "%ld elements alive after destruction", g_live.load() - base);
}

static void vt_main() {
    bool ex = true, ch = true;
    if (char const *w = getenv("CHAN_WHICH")) ex = strchr(w, 'x'), ch = strchr(w, 'c');
    if (ch) {
        vt::run("channel-stress-string", 240, [](vt::Rng &r, uint64_t i) { one_case<dtl::channel<StrElem>, StrElem>(r, i); });
        vt::run("channel-stress-moveonly", 160, [](vt::Rng &r, uint64_t i) { one_case<dtl::channel<PtrElem>, PtrElem>(r, i); });
        vt::run("channel-stress-big", 160, [](vt::Rng &r, uint64_t i) { one_case<dtl::channel<BigElem>, BigElem>(r, i); });
        vt::run("channel-iterators", 400, [](vt::Rng &r, uint64_t i) { iter_case<dtl::channel<StrElem>, StrElem>(r, i); });
        vt::run("channel-iterators-moveonly", 200, [](vt::Rng &r, uint64_t i) { iter_case<dtl::channel<PtrElem>, PtrElem>(r, i); });
    }
    if (ex) {
        vt::run("exchange-stress-string", 240, [](vt::Rng &r, uint64_t i) { one_case<dtl::exchange_channel<StrElem>, StrElem>(r, i); });
        vt::run("exchange-stress-moveonly", 160, [](vt::Rng &r, uint64_t i) { one_case<dtl::exchange_channel<PtrElem>, PtrElem>(r, i); });
        vt::run("exchange-stress-big", 160, [](vt::Rng &r, uint64_t i) { one_case<dtl::exchange_channel<BigElem>, BigElem>(r, i); });
        vt::run("exchange-iterators", 400, [](vt::Rng &r, uint64_t i) { iter_case<dtl::exchange_channel<StrElem>, StrElem>(r, i); });
        vt::run("exchange-iterators-moveonly", 200, [](vt::Rng &r, uint64_t i) { iter_case<dtl::exchange_channel<PtrElem>, PtrElem>(r, i); });
    }
}
VT_MAIN
