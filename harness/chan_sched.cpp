// C01/C02/C04: random concurrent programs on channel / exchange_channel under the controlled scheduler.
// Oracles: exact linearizability of every history; at every global stall the blocked operations must be
// justified by the quiescent state (otherwise a wake-up was lost).
#include "chan_common.hpp"
#include "sched.hpp"
#include "vt.hpp"
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
#include <memory>
#include <optional>

namespace dtl = dice::template_library;
using namespace chan;

// element with scheduling points inside its constructors; 'check' detects torn or stale elements
struct Elem {
    int v;
    int check;
    static constexpr int K = 0x5a5a1234;
    explicit Elem(int x) : v(x) { sched::point(); check = x ^ K; }
    Elem(Elem const &o) : v(o.v) { sched::point(); check = o.check; }
    Elem(Elem &&o) noexcept : v(o.v) { sched::point(); check = o.check; o.v = -77; o.check = 0; }
    Elem &operator=(Elem const &o) { v = o.v; check = o.check; return *this; }
    Elem &operator=(Elem &&o) noexcept { v = o.v; check = o.check; o.v = -77; o.check = 0; return *this; }
    ~Elem() { check = 1; v = -99; }
};
struct PlainElem { // trivially copyable
    int v;
    int check;
    explicit PlainElem(int x) : v(x), check(x ^ Elem::K) {}
};
struct PtrElem { // move-only
    std::unique_ptr<int> p;
    explicit PtrElem(int x) : p(new int(x)) {}
};
static int val(Elem const &e) { return e.check == (e.v ^ Elem::K) ? e.v : -1000; }
static int val(PlainElem const &e) { return e.check == (e.v ^ Elem::K) ? e.v : -1000; }
static int val(PtrElem const &e) { return e.p ? *e.p : -1000; }

struct POp {
    int kind;
    int arg;
    int variant;
};
static int const ITER = 6; // program-level op: iterate over up to arg elements

template<class Ch> constexpr bool is_fifo = requires(Ch &c) { c.try_emplace(1); };

template<class Ch, class E>
bool do_push(Ch &c, int v, int variant) {
    if constexpr (std::is_copy_constructible_v<E>) {
        if (variant == 1) { E e(v); return c.push(e); }
    }
    if (variant == 2) return c.push(E(v));
    return c.emplace(v);
}
template<class Ch, class E>
bool do_try_push(Ch &c, int v, int variant) {
    if constexpr (is_fifo<Ch>) {
        if constexpr (std::is_copy_constructible_v<E>) {
            if (variant == 1) { E e(v); return c.try_push(e); }
        }
        if (variant == 2) return c.try_push(E(v));
        return c.try_emplace(v);
    } else {
        return do_push<Ch, E>(c, v, variant);
    }
}

template<class Ch, class E>
void one_case(vt::Rng &r, uint64_t idx) {
    constexpr bool fifo = is_fifo<Ch>;
    unsigned nthreads = 2 + static_cast<unsigned>(r.below(4));
    static size_t const caps[] = {0, 1, 1, 1, 2, 2, 3, 8};
    size_t cap = fifo ? caps[r.below(8)] : 1;
    unsigned profile = static_cast<unsigned>(r.below(4)); // 0 mixed, 1 producers+consumers, 2 blocking only, 3 with iterators
    unsigned close_pct = static_cast<unsigned>(r.below(3)) * 8;
    int next = 1;
    std::vector<std::vector<POp>> prog(nthreads);
    unsigned total = 0;
    std::string text = vt::fmt("cap=%zu ", cap);
    for (unsigned t = 0; t < nthreads; ++t) {
        unsigned n = 1 + static_cast<unsigned>(r.below(nthreads <= 3 ? 5 : 3));
        bool producer = r.coin();
        text += vt::fmt("t%u:", t);
        for (unsigned i = 0; i < n && total < 18; ++i) {
            POp o{};
            if (r.chance(close_pct)) o.kind = CLOSE;
            else if (r.chance(4)) o.kind = CLOSED;
            else {
                bool ins = profile == 0 ? r.coin() : (producer ? r.chance(92) : r.chance(8));
                bool blocking = profile == 2 || r.chance(65);
                o.kind = ins ? (blocking || !fifo ? PUSH : TRY_PUSH) : (blocking ? POP : TRY_POP);
                if (profile == 3 && !ins && r.chance(50)) {
                    o.kind = ITER;
                    o.arg = 1 + static_cast<int>(r.below(3));
                    total += static_cast<unsigned>(o.arg);
                }
            }
            if (o.kind <= TRY_PUSH) o.arg = next++;
            o.variant = static_cast<int>(r.below(3));
            ++total;
            text += o.kind == ITER ? vt::fmt(" iterate*%d", o.arg) : vt::fmt(" %s", kind_name(o.kind));
            prog[t].push_back(o);
        }
        text += "; ";
    }
    sched::Config cfg;
    cfg.seed = r.u64();
    unsigned strat = static_cast<unsigned>(r.below(4));
    if (strat == 0) cfg.pct_depth = static_cast<int>(r.below(5));
    else cfg.switch_pct = strat == 1 ? 10 : strat == 2 ? 35 : 75;
    cfg.spurious_pct = r.chance(40) ? 10 : 0;
    cfg.mem_pct = r.chance(30) ? 4 : 0;

    auto ch = [&] {
        if constexpr (fifo) return std::make_unique<Ch>(cap);
        else return std::make_unique<Ch>();
    }();
    Ch &c = *ch;
    std::vector<lin::Op> hist;
    hist.reserve(64); // only the running thread touches it
    auto begin_op = [&](int th, int kind, int arg) {
        sched::Quiet q;
        lin::Op o;
        o.thread = th;
        o.kind = kind;
        o.arg = arg;
        o.call = sched::now();
        hist.push_back(o);
        return hist.size() - 1;
    };
    auto end_op = [&](size_t i, int res) {
        sched::Quiet q;
        hist[i].res = res;
        hist[i].ret = sched::now();
    };
    auto take = [](auto const &opt) { return opt.has_value() ? val(*opt) : -1; };
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nthreads; ++t) {
        bodies.push_back([&, t] {
            for (auto &o : prog[t]) {
                int th = static_cast<int>(t);
                switch (o.kind) {
                    case PUSH: { auto i = begin_op(th, PUSH, o.arg); end_op(i, do_push<Ch, E>(c, o.arg, o.variant)); break; }
                    case TRY_PUSH: { auto i = begin_op(th, TRY_PUSH, o.arg); end_op(i, do_try_push<Ch, E>(c, o.arg, o.variant)); break; }
                    case POP: { auto i = begin_op(th, POP, 0); auto x = c.pop(); end_op(i, take(x)); break; }
                    case TRY_POP: { auto i = begin_op(th, TRY_POP, 0); auto x = c.try_pop(); end_op(i, take(x)); break; }
                    case CLOSE: { auto i = begin_op(th, CLOSE, 0); c.close(); end_op(i, 0); break; }
                    case CLOSED: { auto i = begin_op(th, CLOSED, 0); end_op(i, c.closed()); break; }
                    case ITER: {
                        auto i = begin_op(th, POP, 0);
                        auto it = c.begin();
                        bool end = it == c.end();
                        end_op(i, end ? -1 : val(*it));
                        for (int k = 1; k < o.arg && !end; ++k) {
                            i = begin_op(th, POP, 0);
                            if (o.variant == 1) it++;
                            else ++it;
                            end = it == c.end();
                            end_op(i, end ? -1 : val(*it));
                        }
                        break;
                    }
                }
            }
        });
    }
    unsigned rescuer = nthreads;
    bool rescued = false;
    bodies.push_back([&] {
        sched::gate();
        auto i = begin_op(static_cast<int>(rescuer), CLOSE, 0);
        c.close();
        end_op(i, 0);
    });
    bool bad_stall = false;
    std::string why;
    auto res = sched::run(cfg, bodies, [&](std::vector<sched::ThreadInfo> const &info) {
        // quiescent: every unfinished operation is blocked.  Which of them ought to be able to proceed?
        long inside = 0;
        int slot = -1;
        bool closed = false;
        bool nonblocking_pending = false;
        unsigned blocked = 0;
        for (auto &o : hist) {
            if (o.ret == lin::never) continue;
            if (o.kind <= TRY_PUSH && o.res) ++inside;
            if ((o.kind == POP || o.kind == TRY_POP) && o.res >= 0) --inside;
            if (o.kind == CLOSE) closed = true;
        }
        (void) slot;
        for (auto &o : hist) {
            if (o.ret != lin::never) continue;
            ++blocked;
            if (o.kind == PUSH && (closed || !fifo || inside < static_cast<long>(cap))) bad_stall = true, why = "push blocked although there is room or the channel is closed";
            if (o.kind == POP && closed) bad_stall = true, why = "pop blocked although the channel is closed";
            if (o.kind == POP && fifo && inside > 0) bad_stall = true, why = "pop blocked although a value is available";
            if (o.kind == TRY_PUSH || o.kind == TRY_POP || o.kind == CLOSE || o.kind == CLOSED) nonblocking_pending = true;
        }
        if (!fifo && !bad_stall) {
            // is there a linearization of the completed ops in which the slot is empty at the end?
            std::vector<lin::Op> h;
            bool pop_blocked = false;
            uint64_t end = 0;
            for (auto &o : hist) {
                if (o.ret != lin::never) {
                    h.push_back(o);
                    end = std::max(end, o.ret);
                } else if (o.kind == POP) pop_blocked = true;
            }
            if (pop_blocked) {
                lin::Op probe;
                probe.kind = TRY_POP;
                probe.res = -1;
                probe.call = end + 1;
                probe.ret = end + 2;
                h.push_back(probe);
                lin::Checker<SlotModel> ck(h);
                if (!ck.check({})) bad_stall = true, why = "pop blocked although a value is stored";
            }
        }
        if (nonblocking_pending) bad_stall = true, why = "a non-blocking operation is blocked";
        bool gate_blocked = !rescued;
        if (bad_stall || !gate_blocked) {
            if (!bad_stall) why = "threads blocked after close", bad_stall = true;
            return false;
        }
        if (blocked) vt::count("legal_stalls_resolved_by_close");
        rescued = true;
        sched::release(rescuer);
        (void) info;
        return true;
    });
    vt::count("scheduling_points", res.steps);
    vt::count("context_switches", res.switches);
    vt::count("blocked_waits", res.blocks);
    vt::count("spurious_wakeups", res.spurious);
    vt::count("operations", hist.size());
    vt::distinct(vt::mix(res.trace_hash, vt::hash_str(text)));
    (void) idx;
    if (vt::want_sample(fifo ? "channel history" : "exchange_channel history")) vt::sample(fifo ? "channel history" : "exchange_channel history", text + " => " + show(hist));
    if (res.outcome == sched::Outcome::step_limit || res.outcome == sched::Outcome::foreign_block) {
        // Spinning or a block that does not go through pthreads/futex: nothing can be concluded here.
        printf("@INCONCLUSIVE controlled scheduling not possible (outcome %d)\n", static_cast<int>(res.outcome));
        vt::count("inconclusive");
        fflush(stdout);
        _exit(vt::finish() ? 10 : 0);
    }
    if (res.outcome == sched::Outcome::stuck) {
        vt::fail_s("lost-wakeup", why + " | " + text + " | " + show(hist));
        fflush(stdout);
        vt::finish();
        _exit(10);
    }
    // drain: what is left inside must come out, in order, then the end
    for (int guard = 0; guard < 40; ++guard) {
        lin::Op o;
        o.thread = 99;
        o.kind = guard % 2 ? TRY_POP : POP;
        o.call = sched::now();
        auto x = o.kind == POP ? c.pop() : c.try_pop();
        o.res = take(x);
        o.ret = sched::now();
        hist.push_back(o);
        if (o.res < 0) break;
        vt::count("left_inside_at_close");
    }
    if (hist.size() > 60) return;
    using Model = std::conditional_t<fifo, FifoModel, SlotModel>;
    typename Model::State init{};
    if constexpr (fifo) init.cap = cap;
    lin::Checker<Model> ck(hist);
    bool ok = ck.check(init);
    if (ck.exhausted) vt::count("linearizability_inconclusive");
    else vt::count("histories_linearized");
    if (!ok) vt::fail_s("not-linearizable", text + " | " + show(hist));
}

static void vt_main() {
    if (getenv("CHAN_EXCHANGE")) {
        vt::run("exchange-sched-elem", 24000, [](vt::Rng &r, uint64_t i) { one_case<dtl::exchange_channel<Elem>, Elem>(r, i); });
        vt::run("exchange-sched-plain", 12000, [](vt::Rng &r, uint64_t i) { one_case<dtl::exchange_channel<PlainElem>, PlainElem>(r, i); });
        vt::run("exchange-sched-moveonly", 6000, [](vt::Rng &r, uint64_t i) { one_case<dtl::exchange_channel<PtrElem>, PtrElem>(r, i); });
    } else {
        vt::run("channel-sched-elem", 24000, [](vt::Rng &r, uint64_t i) { one_case<dtl::channel<Elem>, Elem>(r, i); });
        vt::run("channel-sched-plain", 12000, [](vt::Rng &r, uint64_t i) { one_case<dtl::channel<PlainElem>, PlainElem>(r, i); });
        vt::run("channel-sched-moveonly", 6000, [](vt::Rng &r, uint64_t i) { one_case<dtl::channel<PtrElem>, PtrElem>(r, i); });
    }
}
VT_MAIN
