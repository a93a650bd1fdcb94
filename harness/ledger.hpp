// Object ledger: every instrumented object registers its address on construction and removes it on destruction.
// Detects double construction over a live object, destruction of a dead one, use of a dead one, leaks; injects exceptions.
#pragma once
#include "vt.hpp"
#include <compare>
#include <unordered_map>

namespace ledger {

struct Boom : std::runtime_error {
    Boom() : std::runtime_error("injected") {}
};

struct Book {
    std::unordered_map<void const *, int> live; // address -> tag
    uint64_t constructed = 0, destroyed = 0, copies = 0, moves = 0, assigns = 0, throws = 0;
    long countdown = -1; // >=0: the operation that finds 0 throws
    uint64_t ticks = 0;
    bool enabled = true;
    std::atomic_flag lk = ATOMIC_FLAG_INIT;
    struct Guard {
        Book &b;
        explicit Guard(Book &x) : b(x) { while (b.lk.test_and_set(std::memory_order_acquire)) {} }
        ~Guard() { b.lk.clear(std::memory_order_release); }
    };
};
inline Book &book() {
    static Book *b = new Book;
    return *b;
}
inline void arm(long n) { book().countdown = n; }
inline void disarm() { book().countdown = -1; }
inline bool armed() { return book().countdown >= 0; }
inline void tick() {
    Book &b = book();
    ++b.ticks;
    if (b.countdown < 0) return;
    if (b.countdown-- == 0) {
        b.countdown = -1;
        ++b.throws;
        throw Boom{};
    }
}
inline void born(void const *p, int tag) {
    Book &b = book();
    bool bad;
    {
        Book::Guard g(b);
        ++b.constructed;
        bad = !b.live.emplace(p, tag).second;
    }
    if (bad) vt::fail("constructed-over-live", "object of type %d constructed over a live object", tag);
}
inline void died(void const *p, int tag) {
    Book &b = book();
    int was = -1;
    {
        Book::Guard g(b);
        ++b.destroyed;
        auto it = b.live.find(p);
        if (it != b.live.end()) {
            was = it->second;
            b.live.erase(it);
        }
    }
    if (was == -1) vt::fail("destroyed-dead", "object of type %d destroyed that is not alive", tag);
    else if (was != tag) vt::fail("destroyed-as-other", "object of type %d destroyed as type %d", was, tag);
}
inline void used(void const *p, int tag, char const *how) {
    Book &b = book();
    int was = -1;
    {
        Book::Guard g(b);
        auto it = b.live.find(p);
        if (it != b.live.end()) was = it->second;
    }
    if (was != tag) vt::fail("used-dead", "%s: object of type %d is not alive there (found %d)", how, tag, was);
}
inline size_t live_count() {
    Book::Guard g(book());
    return book().live.size();
}
inline void expect_live(size_t n, char const *where) {
    size_t l = live_count();
    if (l != n) {
        vt::fail("leak", "%s: %zu instrumented objects alive, expected %zu", where, l, n);
        Book::Guard g(book());
        book().live.clear();
    }
}
inline void reset() {
    Book::Guard g(book());
    book().live.clear();
    book().countdown = -1;
}

constexpr int moved_out = -1000001;

// Flags
enum : unsigned {
    throwing_ctor = 1,  // value constructor may throw
    throwing_copy = 2,  // copy operations may throw
    throwing_move = 4,  // move operations may throw
    no_copy = 8,
    no_move_decl = 16,  // copyable only: moves copy
    no_assign = 32,
    explicit_ctor = 64,
    throwing_assign = 128, // assignments may throw even where construction does not
};

template<int Tag, unsigned F>
struct Obj {
    static constexpr int tag = Tag;
    static constexpr unsigned flags = F;
    static constexpr bool can_copy = !(F & no_copy);
    static constexpr bool can_assign = !(F & no_assign);
    int v = 0;
    int pad = 0x7e57;

    Obj() noexcept(!(F & throwing_ctor)) : v(0) {
        if constexpr ((F & throwing_ctor) != 0) tick();
        born(this, Tag);
    }
    explicit(F & explicit_ctor) Obj(int x) noexcept(!(F & throwing_ctor)) : v(x) {
        if constexpr ((F & throwing_ctor) != 0) tick();
        born(this, Tag);
    }
    Obj(int x, int y) noexcept(!(F & throwing_ctor)) : v(x * 1000 + y) {
        if constexpr ((F & throwing_ctor) != 0) tick();
        born(this, Tag);
    }
    Obj(Obj const &o) noexcept(!(F & throwing_copy)) requires can_copy : v(o.v) {
        used(&o, Tag, "copy source");
        if constexpr ((F & throwing_copy) != 0) tick();
        ++book().copies;
        born(this, Tag);
    }
    Obj(Obj &&o) noexcept(!(F & throwing_move)) requires(!(F & no_move_decl)) : v(o.v) {
        used(&o, Tag, "move source");
        if constexpr ((F & throwing_move) != 0) tick();
        ++book().moves;
        o.v = moved_out;
        born(this, Tag);
    }
    Obj &operator=(Obj const &o) noexcept(!(F & (throwing_copy | throwing_assign))) requires(can_copy && can_assign) {
        used(this, Tag, "assign target");
        used(&o, Tag, "assign source");
        if constexpr ((F & (throwing_copy | throwing_assign)) != 0) tick();
        ++book().assigns;
        v = o.v;
        return *this;
    }
    Obj &operator=(Obj &&o) noexcept(!(F & (throwing_move | throwing_assign))) requires(!(F & no_move_decl) && can_assign) {
        used(this, Tag, "assign target");
        used(&o, Tag, "assign source");
        if constexpr ((F & (throwing_move | throwing_assign)) != 0) tick();
        ++book().assigns;
        if (this != &o) {
            v = o.v;
            o.v = moved_out;
        }
        return *this;
    }
    ~Obj() {
        died(this, Tag);
        v = -1000002;
    }
    int get() const {
        used(this, Tag, "read");
        return v;
    }
    friend bool operator==(Obj const &a, Obj const &b) noexcept { return a.v == b.v; }
    friend std::strong_ordering operator<=>(Obj const &a, Obj const &b) noexcept { return a.v <=> b.v; }
};

} // namespace ledger
