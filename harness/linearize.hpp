// Exact linearizability check (Wing & Gong with memoisation) of small recorded histories.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>

namespace lin {

constexpr uint64_t never = ~0ull;

struct Op {
    int thread = 0;
    int kind = 0;
    int arg = 0;           // value inserted
    int res = 0;           // result (see the model)
    uint64_t call = 0, ret = never; // ret == never: pending (may or may not have taken effect)
};

// Model: struct State {...; std::string key() const;}; bool apply(State&, Op const&) -> legal with recorded result;
// for pending ops apply_pending(State&, Op const&) -> takes effect with any legal result (or false if it cannot take effect).
template<class Model>
struct Checker {
    std::vector<Op> const &ops;
    std::unordered_set<std::string> seen;
    uint64_t nodes = 0, limit;
    bool exhausted = false;
    std::vector<int> order;

    Checker(std::vector<Op> const &o, uint64_t lim = 2000000) : ops(o), limit(lim) {}

    bool rec(uint64_t done, typename Model::State const &s) {
        if (++nodes > limit) {
            exhausted = true;
            return true; // inconclusive: never a violation
        }
        bool all = true;
        uint64_t min_ret = never;
        for (size_t i = 0; i < ops.size(); ++i)
            if (!(done >> i & 1)) {
                if (ops[i].ret != never) all = false;
                if (ops[i].ret < min_ret) min_ret = ops[i].ret;
            }
        if (all) return true;
        std::string k = s.key();
        k.append(reinterpret_cast<char const *>(&done), sizeof done);
        if (!seen.insert(k).second) return false;
        for (size_t i = 0; i < ops.size(); ++i) {
            if (done >> i & 1) continue;
            if (ops[i].call > min_ret) continue; // some other op finished before this one started
            typename Model::State t = s;
            bool ok = ops[i].ret == never ? Model::apply_pending(t, ops[i]) : Model::apply(t, ops[i]);
            if (ok) {
                order.push_back(static_cast<int>(i));
                if (rec(done | 1ull << i, t)) return true;
                order.pop_back();
            }
            if constexpr (requires { Model::apply_alt(t, ops[i]); }) { // a second legal effect of the same result
                typename Model::State t2 = s;
                if (!Model::apply_alt(t2, ops[i])) continue;
                order.push_back(static_cast<int>(i));
                if (rec(done | 1ull << i, t2)) return true;
                order.pop_back();
            }
        }
        return false;
    }
    bool check(typename Model::State const &init) { return rec(0, init); }
};

} // namespace lin
