// C02/C03: elements whose construction, copy or move throws, on channel / exchange_channel under the controlled scheduler.
// Oracles: the history (a throwing insertion has no effect; a throwing take leaves or consumes the element) is linearizable; at a
// global stall every blocked operation is justified; every element is destroyed exactly once; nothing terminates.
#include "chan_common.hpp"
#include "sched.hpp"
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
#include <memory>
#include <optional>
#include <unordered_map>

namespace dtl = dice::template_library;
using namespace chan;

static constexpr int THREW = -50;

static std::unordered_map<void const *, int> *g_live;
static std::string g_ledger_error;
static thread_local int t_countdown = -1; // throw at this construction event of the current operation
static thread_local bool t_threw = false;

struct Boom {};
static void event(void const *) {
    if (t_countdown >= 0 && t_countdown-- == 0) {
        t_threw = true;
        throw Boom{};
    }
}
template<bool ThrowMove>
struct XElem {
    int v;
    explicit XElem(int x) : v(x) { sched::point(); event(this); born(); }
    XElem(XElem const &o) : v(o.v) { o.use(); sched::point(); event(this); born(); }
    XElem(XElem &&o) noexcept(!ThrowMove) : v(o.v) {
        o.use();
        sched::point();
        if constexpr (ThrowMove) event(this);
        o.v = -77;
        born();
    }
    XElem &operator=(XElem const &) = delete;
    ~XElem() {
        sched::Quiet q;
        if (!g_live->erase(this)) g_ledger_error = "element destroyed twice or never constructed";
        v = -99;
    }
    void born() {
        sched::Quiet q;
        if (!g_live->emplace(this, v).second) g_ledger_error = "element constructed over a live one";
    }
    void use() const {
        sched::Quiet q;
        if (!g_live->count(this)) g_ledger_error = "dead element copied or moved";
    }
};

template<class Base, bool fifo>
struct ExModel : Base {
    using State = typename Base::State;
    static bool apply(State &s, lin::Op const &o) {
        if (o.res != THREW) return Base::apply(s, o);
        if (o.kind == POP || o.kind == TRY_POP) return o.kind == TRY_POP || true; // alternative 1: nothing happened
        return true;
    }
    static bool apply_alt(State &s, lin::Op const &o) {
        if (o.res != THREW || o.ret == lin::never) return false;
        if (o.kind == POP || o.kind == TRY_POP) { // alternative 2: the element was consumed
            if constexpr (fifo) {
                if (s.q.empty()) return false;
                s.q.pop_front();
            } else s.v = -1;
            return true;
        }
        if constexpr (!fifo) { // the value being replaced may be gone
            s.v = -1;
            return true;
        }
        return false;
    }
};

struct POp {
    int kind, arg, variant, throw_at;
};

template<class Ch> constexpr bool is_fifo = requires(Ch &c) { c.try_emplace(1); };

template<class Ch, class E>
void one_case(vt::Rng &r, uint64_t) {
    constexpr bool fifo = is_fifo<Ch>;
    using Model = ExModel<std::conditional_t<fifo, FifoModel, SlotModel>, fifo>;
    unsigned nthreads = 2 + static_cast<unsigned>(r.below(4));
    size_t cap = fifo ? 1 + r.below(3) : 1;
    int next = 1;
    unsigned total = 0;
    std::vector<std::vector<POp>> prog(nthreads);
    std::string text = vt::fmt("cap=%zu ", cap);
    for (unsigned t = 0; t < nthreads; ++t) {
        unsigned n = 1 + static_cast<unsigned>(r.below(4));
        bool producer = r.coin();
        text += vt::fmt("t%u:", t);
        for (unsigned i = 0; i < n && total < 14; ++i, ++total) {
            POp o{};
            bool ins = r.chance(producer ? 90 : 10);
            bool blocking = r.chance(75);
            o.kind = r.chance(4) ? CLOSE : ins ? (blocking || !fifo ? PUSH : TRY_PUSH) : blocking ? POP : TRY_POP;
            if (o.kind <= TRY_PUSH) o.arg = next++;
            o.variant = static_cast<int>(r.below(3));
            o.throw_at = r.chance(45) ? static_cast<int>(r.below(3)) : -1;
            text += vt::fmt(" %s%s", kind_name(o.kind), o.throw_at >= 0 ? vt::fmt("!%d", o.throw_at).c_str() : "");
            prog[t].push_back(o);
        }
        text += "; ";
    }
    sched::Config cfg;
    cfg.seed = r.u64();
    unsigned strat = static_cast<unsigned>(r.below(4));
    if (strat == 0) cfg.pct_depth = static_cast<int>(r.below(5));
    else cfg.switch_pct = strat == 1 ? 10 : strat == 2 ? 35 : 75;
    cfg.spurious_pct = r.chance(25) ? 10 : 0;

    std::unordered_map<void const *, int> live;
    g_live = &live;
    g_ledger_error.clear();
    auto ch = [&] {
        if constexpr (fifo) return std::make_unique<Ch>(cap);
        else return std::make_unique<Ch>();
    }();
    Ch &c = *ch;
    std::vector<lin::Op> hist;
    hist.reserve(64);
    uint64_t thrown = 0;
    auto perform = [&](int th, POp const &o) -> int {
        size_t i;
        {
            sched::Quiet q;
            lin::Op h;
            h.thread = th;
            h.kind = o.kind;
            h.arg = o.arg;
            h.call = sched::now();
            hist.push_back(h);
            i = hist.size() - 1;
        }
        int res = 0;
        t_countdown = -1;
        t_threw = false;
        std::optional<E> keep;
        if (o.kind <= TRY_PUSH && o.variant != 0) keep.emplace(o.arg);
        t_countdown = o.throw_at;
        try {
            switch (o.kind) {
                case PUSH: res = o.variant == 0 ? c.emplace(o.arg) : o.variant == 1 ? c.push(*keep) : c.push(std::move(*keep)); break;
                case TRY_PUSH:
                    if constexpr (fifo) res = o.variant == 0 ? c.try_emplace(o.arg) : o.variant == 1 ? c.try_push(*keep) : c.try_push(std::move(*keep));
                    break;
                case POP: { auto x = c.pop(); res = x ? x->v : -1; break; }
                case TRY_POP: { auto x = c.try_pop(); res = x ? x->v : -1; break; }
                case CLOSE: c.close(); break;
            }
        } catch (Boom const &) {
            res = THREW;
            ++thrown;
        }
        t_countdown = -1;
        sched::Quiet q;
        if (t_threw && res != THREW) g_ledger_error = "an exception thrown by the element did not reach the caller";
        hist[i].res = res;
        hist[i].ret = sched::now();
        return res;
    };
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nthreads; ++t)
        bodies.push_back([&, t] {
            for (auto &o : prog[t]) perform(static_cast<int>(t), o);
        });
    unsigned rescuer = nthreads;
    bool rescued = false, probe_pop = false, probe_push = false;
    std::string why;
    bodies.push_back([&] {
        sched::gate();
        // everyone else is blocked: look at the real state
        if (probe_pop) {
            if (perform(static_cast<int>(rescuer), POp{TRY_POP, 0, 0, -1}) >= 0) why = "pop blocked although a value is available (a try_pop got it)";
        } else if (probe_push) {
            if (perform(static_cast<int>(rescuer), POp{TRY_PUSH, 7777, 0, -1}) == 1) why = "push blocked although there is room (a try_push succeeded)";
        }
        perform(static_cast<int>(rescuer), POp{CLOSE, 0, 0, -1});
    });
    auto res = sched::run(cfg, bodies, [&](std::vector<sched::ThreadInfo> const &) {
        std::vector<lin::Op> h;
        uint64_t end = 0;
        bool full_needed = false, empty_needed = false, closed = false, blocked = false;
        for (auto &o : hist) {
            if (o.ret != lin::never) {
                h.push_back(o);
                end = std::max(end, o.ret);
                closed |= o.kind == CLOSE;
                continue;
            }
            blocked = true;
            if (o.kind == PUSH) full_needed = true;
            else if (o.kind == POP) empty_needed = true;
            else why = "a non-blocking operation is blocked";
        }
        if (closed && blocked) why = "blocked although the channel is closed";
        auto probe = [&](int kind, int result) {
            lin::Op p;
            p.thread = 98;
            p.kind = kind;
            p.arg = 9999;
            p.res = result;
            p.call = ++end;
            p.ret = ++end;
            h.push_back(p);
        };
        if (full_needed) probe(TRY_PUSH, 0);
        if (empty_needed) probe(TRY_POP, -1);
        if (why.empty() && (full_needed || empty_needed)) {
            typename Model::State init{};
            if constexpr (fifo) init.cap = cap;
            if (h.size() < 60) {
                lin::Checker<Model> ck(h);
                if (!ck.check(init)) why = full_needed && empty_needed ? "push and pop both blocked" : full_needed ? "push blocked although there is room" : "pop blocked although a value is available";
            }
        }
        if (!why.empty() || rescued) {
            if (why.empty()) why = "blocked after close";
            return false;
        }
        if (blocked) vt::count("legal_stalls_resolved_by_close");
        rescued = true;
        probe_pop = empty_needed;
        probe_push = full_needed && fifo;
        sched::release(rescuer);
        return true;
    });
    vt::count("context_switches", res.switches);
    vt::count("exceptions_thrown_by_elements", thrown);
    vt::count("operations", hist.size());
    vt::distinct(vt::mix(res.trace_hash, vt::hash_str(text)));
    if (vt::want_sample("history with exceptions")) vt::sample("history with exceptions", text + " => " + show(hist));
    if (res.outcome == sched::Outcome::step_limit || res.outcome == sched::Outcome::foreign_block) {
        printf("@INCONCLUSIVE controlled scheduling not possible (outcome %d)\n", static_cast<int>(res.outcome));
        fflush(stdout);
        _exit(vt::finish() ? 10 : 0);
    }
    if (res.outcome == sched::Outcome::stuck) {
        vt::fail_s("lost-wakeup", why + " | " + text + " | " + show(hist));
        vt::finish();
        _exit(10);
    }
    if (!why.empty()) vt::fail_s("lost-wakeup", why + " | " + text + " | " + show(hist));
    for (int guard = 0; guard < 30; ++guard) {
        if (perform(97, POp{guard % 2 ? TRY_POP : POP, 0, 0, -1}) < 0) break;
    }
    typename Model::State init{};
    if constexpr (fifo) init.cap = cap;
    lin::Checker<Model> ck(hist);
    if (!ck.check(init)) vt::fail_s("not-linearizable", text + " | " + show(hist));
    vt::count("histories_linearized");
    ch.reset();
    if (!live.empty()) vt::fail_s("leak", vt::fmt("%zu elements never destroyed | ", live.size()) + text + show(hist));
    if (!g_ledger_error.empty()) vt::fail_s("ledger", g_ledger_error + " | " + text + show(hist));
}

static void vt_main() {
    char const *w = getenv("CHAN_WHICH");
    if (!w || *w == 'c') {
        vt::run("channel-throwing-move", 6000, [](vt::Rng &r, uint64_t i) { one_case<dtl::channel<XElem<true>>, XElem<true>>(r, i); });
        vt::run("channel-throwing-copy", 6000, [](vt::Rng &r, uint64_t i) { one_case<dtl::channel<XElem<false>>, XElem<false>>(r, i); });
    }
    if (!w || *w == 'x') {
        vt::run("exchange-throwing-move", 6000, [](vt::Rng &r, uint64_t i) { one_case<dtl::exchange_channel<XElem<true>>, XElem<true>>(r, i); });
        vt::run("exchange-throwing-copy", 6000, [](vt::Rng &r, uint64_t i) { one_case<dtl::exchange_channel<XElem<false>>, XElem<false>>(r, i); });
    }
}
VT_MAIN
