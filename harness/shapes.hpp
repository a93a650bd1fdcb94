// Ranges of every category over the same elements, with guarded iterators that report accesses outside the input.
// Needs before inclusion: PART (instantiation control), and same(T, T) and show(vector<T>) for the element types.
#pragma once
#include "vt.hpp"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <ranges>
#include <span>
#include <sstream>

// ---------------------------------------------------------------- guarded ranges
// forward range with a distinct sentinel type; every access outside [0, n) is reported
template<class T> struct Src {
    T *data;
    size_t n;
    uint64_t reads = 0;
};
template<class T> struct GuardIt {
    using value_type = std::remove_const_t<T>;
    using difference_type = std::ptrdiff_t;
    using iterator_concept = std::forward_iterator_tag;
    Src<T> *s = nullptr;
    size_t i = 0;
    T &operator*() const {
        ++s->reads;
        if (i >= s->n) {
            vt::fail("outside-input", "element %zu of %zu was read", i, s->n);
            static std::remove_const_t<T> dummy{};
            return dummy;
        }
        return s->data[i];
    }
    GuardIt &operator++() {
        if (i >= s->n) vt::fail("outside-input", "an iterator at the end was advanced");
        ++i;
        return *this;
    }
    GuardIt operator++(int) { auto c = *this; ++*this; return c; }
    friend bool operator==(GuardIt const &a, GuardIt const &b) { return a.i == b.i; }
    friend bool operator==(GuardIt const &a, std::default_sentinel_t) { return a.i >= a.s->n; }
};
template<class T> struct GuardRange {
    Src<T> *s;
    GuardIt<T> begin() const { return {s, 0}; }
    std::default_sentinel_t end() const { return {}; }
};
// single pass: all iterators over one source share its position
template<class T> struct OnceIt {
    using value_type = std::remove_const_t<T>;
    using difference_type = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    Src<T> *s = nullptr;
    size_t *pos = nullptr;
    T &operator*() const {
        ++s->reads;
        if (*pos >= s->n) {
            vt::fail("outside-input", "a single-pass range was read after its end");
            static std::remove_const_t<T> dummy{};
            return dummy;
        }
        return s->data[*pos];
    }
    OnceIt &operator++() {
        if (*pos >= s->n) vt::fail("outside-input", "a single-pass range was advanced after its end");
        ++*pos;
        return *this;
    }
    void operator++(int) { ++*this; }
    friend bool operator==(OnceIt const &a, std::default_sentinel_t) { return *a.pos >= a.s->n; }
};
template<class T> struct OnceMoveIt : OnceIt<T> { // move-only
    OnceMoveIt(Src<T> *s, size_t *p) : OnceIt<T>{s, p} {}
    OnceMoveIt(OnceMoveIt &&) = default;
    OnceMoveIt &operator=(OnceMoveIt &&) = default;
    OnceMoveIt &operator++() { OnceIt<T>::operator++(); return *this; }
    void operator++(int) { ++*this; }
    friend bool operator==(OnceMoveIt const &a, std::default_sentinel_t) { return *a.pos >= a.s->n; }
};
template<class T, class It> struct OnceRange {
    Src<T> *s;
    size_t *pos;
    It begin() const { return It{s, pos}; }
    std::default_sentinel_t end() const { return {}; }
};
// single pass, and the element lives in a buffer that the next increment overwrites
template<class T> struct Stash {
    Src<T const> *s;
    size_t pos = 0;
    std::remove_const_t<T> cur{};
    void load() { if (pos < s->n) cur = s->data[pos]; else cur = std::remove_const_t<T>{}; }
};
template<class T> struct StashIt {
    using value_type = std::remove_const_t<T>;
    using difference_type = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    Stash<T> *st = nullptr;
    value_type const &operator*() const {
        ++st->s->reads;
        if (st->pos >= st->s->n) vt::fail("outside-input", "a single-pass range was read after its end");
        return st->cur;
    }
    StashIt &operator++() {
        if (st->pos >= st->s->n) vt::fail("outside-input", "a single-pass range was advanced after its end");
        ++st->pos;
        st->load();
        return *this;
    }
    void operator++(int) { ++*this; }
    friend bool operator==(StashIt const &a, std::default_sentinel_t) { return a.st->pos >= a.st->s->n; }
};
template<class T> struct StashRange {
    Stash<T> *st;
    StashIt<T> begin() const { return {st}; }
    std::default_sentinel_t end() const { return {}; }
};
// deref yields a prvalue (no stable addresses)
template<class T> struct ByValueIt {
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    Src<T const> *s = nullptr;
    size_t i = 0;
    T operator*() const {
        ++s->reads;
        if (i >= s->n) {
            vt::fail("outside-input", "element %zu of %zu was read", i, s->n);
            return T{};
        }
        return s->data[i];
    }
    ByValueIt &operator++() {
        if (i >= s->n) vt::fail("outside-input", "an iterator at the end was advanced");
        ++i;
        return *this;
    }
    void operator++(int) { ++*this; }
    friend bool operator==(ByValueIt const &a, std::default_sentinel_t) { return a.i >= a.s->n; }
};
template<class T> struct ByValueRange {
    Src<T const> *s;
    ByValueIt<T> begin() const { return {s, 0}; }
    std::default_sentinel_t end() const { return {}; }
};
namespace std::ranges { template<class T> constexpr bool enable_borrowed_range<GuardRange<T>> = true; }

enum : unsigned { FWD = 1, COPYIT = 2, STABLE = 4, ALL = 7 };

// call f.template operator()<caps>(name, make) with make() giving a fresh range over exactly the elements of v
// (the containers that differ little from each other are only used with int elements: instantiating everything takes minutes)
#ifndef PART
#define PART 0
#endif
template<class T, class F> void shapes(std::vector<T> const &v, F &&f) {
    constexpr bool full = std::is_same_v<T, int> && PART == 0;
    auto unchanged = [&](auto const &r, char const *what) {
        size_t i = 0;
        for (auto const &x : r) {
            if (i >= v.size() || !same(x, v[i])) {
                vt::fail("input-modified", "%s: element %zu of %s changed", what, i, show(v).c_str());
                return;
            }
            ++i;
        }
        if (i != v.size()) vt::fail("input-modified", "%s: %zu of %zu elements left", what, i, v.size());
    };
    {
        std::vector<T> c = v;
        if constexpr (full) f.template operator()<FWD | COPYIT | STABLE>("vector", [&]() -> std::vector<T> & { return c; });
        unchanged(c, "vector");
        f.template operator()<FWD | COPYIT | STABLE>("const vector", [&]() -> std::vector<T> const & { return c; });
    }
    if constexpr (full) {
        std::list<T> c(v.begin(), v.end());
        f.template operator()<FWD | COPYIT | STABLE>("list", [&]() -> std::list<T> & { return c; });
        unchanged(c, "list");
    }
    {
        std::forward_list<T> c(v.begin(), v.end());
        f.template operator()<FWD | COPYIT | STABLE>("forward_list", [&]() -> std::forward_list<T> & { return c; });
        unchanged(c, "forward_list");
    }
    if constexpr (full) {
        std::deque<T> c(v.begin(), v.end());
        f.template operator()<FWD | COPYIT | STABLE>("deque", [&]() -> std::deque<T> & { return c; });
        unchanged(c, "deque");
    }
    { // exact heap buffer
        T *p = new T[v.size()];
        std::copy(v.begin(), v.end(), p);
        if constexpr (full) f.template operator()<FWD | COPYIT | STABLE>("span", [&] { return std::span<T>(p, v.size()); });
        unchanged(std::span<T>(p, v.size()), "span");
        Src<T> s{p, v.size()};
        f.template operator()<FWD | COPYIT | STABLE>("guarded", [&] { return GuardRange<T>{&s}; });
        size_t pos = 0;
        f.template operator()<COPYIT | STABLE>("single pass", [&] { pos = 0; return OnceRange<T, OnceIt<T>>{&s, &pos}; });
        f.template operator()<STABLE>("single pass, move-only iterators", [&] { pos = 0; return OnceRange<T, OnceMoveIt<T>>{&s, &pos}; });
        unchanged(std::span<T>(p, v.size()), "guarded");
        Src<T const> cs{p, v.size()};
        f.template operator()<COPYIT>("by value", [&] { return ByValueRange<T>{&cs}; });
        Stash<T> stash{&cs};
        f.template operator()<COPYIT>("stashing", [&] { stash.pos = 0; stash.load(); return StashRange<T>{&stash}; });
        vt::count("guarded_reads", s.reads + cs.reads);
        delete[] p;
    }
    if constexpr (full) { // views
        std::vector<std::pair<bool, T>> c;
        unsigned k = 1;
        for (auto &x : v) {
            while ((k = k * 1103515245 + 12345) & 0x10000) c.push_back({false, x});
            c.push_back({true, x});
        }
        auto view = c | std::views::filter([](auto const &p) { return p.first; }) | std::views::transform(&std::pair<bool, T>::second);
        f.template operator()<FWD | COPYIT | STABLE>("filter|transform", [&]() -> auto & { return view; });
        f.template operator()<FWD | COPYIT>("temporary transform", [&] {
            return std::views::iota(size_t{0}, v.size()) | std::views::transform([&v](size_t i) { return v[i]; });
        });
    }
    f.template operator()<FWD | COPYIT>("temporary vector", [&] { return std::vector<T>(v); });
    if constexpr (full) {
        std::string txt;
        for (int x : v) txt += std::to_string(x) + " ";
        std::istringstream in;
        f.template operator()<0>("istream", [&] { in.clear(); in.str(txt); return std::views::istream<int>(in); });
    }
}

