// Monitored stateful allocator: every block is registered with its allocator identity, size and alignment; returning it elsewhere, twice or
// with another size is a failure; allocations can be made to fail at a chosen point.
#pragma once
#include "ledger.hpp"
#include <memory>

namespace mon {

struct Block {
    size_t bytes, align;
    int id;
};
struct Registry {
    std::map<void *, Block> blocks;
    uint64_t allocs = 0, frees = 0, failures = 0;
    long fail_in = -1; // the allocation that finds 0 throws bad_alloc
    size_t bytes_live = 0;
};
inline Registry &reg() {
    static Registry *r = new Registry;
    return *r;
}
inline void *take(size_t bytes, size_t align, int id) {
    Registry &g = reg();
    if (g.fail_in >= 0 && g.fail_in-- == 0) {
        g.fail_in = -1;
        ++g.failures;
        throw std::bad_alloc{};
    }
    void *p = ::operator new(bytes, std::align_val_t{align});
    vt::scrub(p, bytes, 0xC5);
    g.blocks.emplace(p, Block{bytes, align, id});
    g.bytes_live += bytes;
    ++g.allocs;
    return p;
}
inline void give(void *p, size_t bytes, size_t align, int id) {
    Registry &g = reg();
    auto it = g.blocks.find(p);
    if (it == g.blocks.end()) return vt::fail("dealloc-unknown", "deallocating a block that is not allocated (%zu bytes)", bytes);
    if (it->second.bytes != bytes) vt::fail("dealloc-size", "block of %zu bytes returned as %zu bytes", it->second.bytes, bytes);
    if (it->second.align != align) vt::fail("dealloc-align", "block aligned %zu returned as %zu", it->second.align, align);
    if (it->second.id != id) vt::fail("dealloc-foreign", "block of allocator %d returned to unequal allocator %d", it->second.id, id);
    g.bytes_live -= it->second.bytes;
    size_t al = it->second.align;
    g.blocks.erase(it);
    ++g.frees;
    if (bytes) std::memset(p, 0xDD, 1);
    ::operator delete(p, std::align_val_t{al});
}
inline void expect_blocks(size_t n, char const *where) {
    if (reg().blocks.size() != n) vt::fail("leaked-blocks", "%s: %zu blocks allocated, expected %zu", where, reg().blocks.size(), n);
}
inline void reset() {
    for (auto &[p, b] : reg().blocks) ::operator delete(p, std::align_val_t{b.align});
    reg().blocks.clear();
    reg().bytes_live = 0;
    reg().fail_in = -1;
}

enum : unsigned { pocca = 1, pocma = 2, pocs = 4, always_equal = 8, soccc = 16 };

template<class T, unsigned F>
struct Mon {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<(F & pocca) != 0>;
    using propagate_on_container_move_assignment = std::bool_constant<(F & pocma) != 0>;
    using propagate_on_container_swap = std::bool_constant<(F & pocs) != 0>;
    using is_always_equal = std::bool_constant<(F & always_equal) != 0>;
    template<class U> struct rebind { using other = Mon<U, F>; };
    int id;
    Mon(int i = 0) noexcept : id((F & always_equal) ? 0 : i) {}
    template<class U> Mon(Mon<U, F> const &o) noexcept : id(o.id) {}
    T *allocate(size_t n) {
        if (n > static_cast<size_t>(-1) / sizeof(T)) throw std::bad_array_new_length{};
        return static_cast<T *>(take(n * sizeof(T), alignof(T), id));
    }
    void deallocate(T *p, size_t n) noexcept { give(p, n * sizeof(T), alignof(T), id); }
    Mon select_on_container_copy_construction() const { return (F & soccc) ? Mon(id + 100) : *this; }
    friend bool operator==(Mon const &a, Mon const &b) noexcept { return a.id == b.id; }
};

} // namespace mon
