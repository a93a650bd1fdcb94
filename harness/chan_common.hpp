// Shared between the channel / exchange_channel harnesses: operation kinds, history printing, models.
#pragma once
#include "linearize.hpp"
#include "vt.hpp"
#include <deque>

namespace chan {

enum Kind { PUSH, TRY_PUSH, POP, TRY_POP, CLOSE, CLOSED };
inline char const *kind_name(int k) {
    static char const *n[] = {"push", "try_push", "pop", "try_pop", "close", "closed"};
    return n[k];
}
inline std::string show(std::vector<lin::Op> const &ops) {
    std::string s;
    for (auto &o : ops) {
        s += vt::fmt("[t%d %s", o.thread, kind_name(o.kind));
        if (o.kind <= TRY_PUSH) s += vt::fmt("(%d)", o.arg);
        if (o.ret == lin::never) s += vt::fmt(" @%llu..PENDING] ", static_cast<unsigned long long>(o.call));
        else s += vt::fmt("=%d @%llu..%llu] ", o.res, static_cast<unsigned long long>(o.call), static_cast<unsigned long long>(o.ret));
    }
    return s;
}

// res: push/try_push/closed: 0/1; pop/try_pop: value or -1 for nullopt
struct FifoModel {
    struct State {
        std::deque<int> q;
        bool closed = false;
        size_t cap = 0;
        std::string key() const {
            std::string k(1, closed ? 'c' : 'o');
            for (int v : q) k.append(reinterpret_cast<char const *>(&v), sizeof v);
            return k;
        }
    };
    static bool apply(State &s, lin::Op const &o) {
        switch (o.kind) {
            case PUSH:
                if (o.res) {
                    if (s.closed || s.q.size() >= s.cap) return false;
                    s.q.push_back(o.arg);
                    return true;
                }
                return s.closed;
            case TRY_PUSH:
                if (o.res) {
                    if (s.closed || s.q.size() >= s.cap) return false;
                    s.q.push_back(o.arg);
                    return true;
                }
                return s.closed || s.q.size() >= s.cap;
            case POP:
                if (o.res < 0) return s.closed && s.q.empty();
                if (s.q.empty() || s.q.front() != o.res) return false;
                s.q.pop_front();
                return true;
            case TRY_POP:
                if (o.res < 0) return s.q.empty();
                if (s.q.empty() || s.q.front() != o.res) return false;
                s.q.pop_front();
                return true;
            case CLOSE: s.closed = true; return true;
            case CLOSED: return o.res == (s.closed ? 1 : 0);
        }
        return false;
    }
    static bool apply_pending(State &s, lin::Op const &o) {
        switch (o.kind) {
            case PUSH:
            case TRY_PUSH:
                if (s.closed || s.q.size() >= s.cap) return false;
                s.q.push_back(o.arg);
                return true;
            case POP:
            case TRY_POP:
                if (s.q.empty()) return false;
                s.q.pop_front();
                return true;
            case CLOSE: s.closed = true; return true;
        }
        return false;
    }
};

struct SlotModel {
    struct State {
        int v = -1;
        bool closed = false;
        std::string key() const { return std::string(1, closed ? 'c' : 'o') + std::to_string(v); }
    };
    static bool apply(State &s, lin::Op const &o) {
        switch (o.kind) {
            case PUSH:
            case TRY_PUSH:
                if (o.res) {
                    if (s.closed) return false;
                    s.v = o.arg;
                    return true;
                }
                return s.closed;
            case POP:
                if (o.res < 0) return s.closed && s.v < 0;
                if (s.v != o.res) return false;
                s.v = -1;
                return true;
            case TRY_POP:
                if (o.res < 0) return s.v < 0;
                if (s.v != o.res) return false;
                s.v = -1;
                return true;
            case CLOSE: s.closed = true; return true;
            case CLOSED: return o.res == (s.closed ? 1 : 0);
        }
        return false;
    }
    static bool apply_pending(State &s, lin::Op const &o) {
        switch (o.kind) {
            case PUSH:
            case TRY_PUSH:
                if (s.closed) return false;
                s.v = o.arg;
                return true;
            case POP:
            case TRY_POP:
                if (s.v < 0) return false;
                s.v = -1;
                return true;
            case CLOSE: s.closed = true; return true;
        }
        return false;
    }
};

} // namespace chan
