// C20: pointer_tag_pair against a (pointer, tag) model: construction in every form, copies, assignment, swap, the tagged representation,
// structured bindings, conversions between pointer types, over pointees of every alignment, tag types and bit counts.
#include "vt.hpp"
#include <dice/template-library/pointer_tag_pair.hpp>
#include <memory>
#include <optional>
#include <string>

namespace dtl = dice::template_library;

enum struct Color : uint8_t { red, green, blue, top = 255 };
enum struct Big : uint64_t { zero, all = ~0ull };
template<size_t A> struct alignas(A) Al { unsigned char b[A]; };

// inheritance: B2 and B3 do not start at the address of D; V is a virtual base
struct alignas(8) B1 { uint64_t a = 11; virtual ~B1() = default; };
struct alignas(8) B2 { uint64_t b = 22; };
struct alignas(4) B3 { uint32_t c = 33; };
struct alignas(16) V { uint64_t v = 44; };
struct alignas(16) D : B1, B2, B3, virtual V { uint64_t d = 55; };
struct E : D { uint64_t e = 66; };

template<class P> void const *addr(P *p) { return const_cast<void const *>(static_cast<void const volatile *>(p)); }
static uint64_t n_checks, n_maxtags, n_nulls, n_conv, n_orders;

template<class T, class Tag, unsigned Bits> struct Suite {
    using Pair = dtl::pointer_tag_pair<T, Tag, Bits>;
    static constexpr uint64_t tag_values() { // number of tags - 1
        uint64_t m = Bits >= 64 ? ~0ull : (1ull << Bits) - 1;
        uint64_t t;
        if constexpr (std::is_enum_v<Tag>) t = static_cast<uint64_t>(std::numeric_limits<std::underlying_type_t<Tag>>::max());
        else t = static_cast<uint64_t>(std::numeric_limits<Tag>::max());
        return std::min(m, t);
    }
    struct Model { T *p = nullptr; Tag t{}; };
    static void same(char const *op, Pair const &x, Model const &m) {
        ++n_checks;
        if (addr(x.pointer()) != addr(m.p)) vt::fail("wrong-pointer", "%s: pointer() = %p, stored %p (tag %llu, %u bits)", op, addr(x.pointer()), addr(m.p), static_cast<unsigned long long>(m.t), Bits);
        if (x.tag() != m.t) vt::fail("wrong-tag", "%s: tag() = %llu, stored %llu (pointer %p, %u bits)", op, static_cast<unsigned long long>(x.tag()), static_cast<unsigned long long>(m.t), addr(m.p), Bits);
        auto const [p, t] = x;
        static_assert(std::is_same_v<decltype(x.pointer()), T *> && std::is_same_v<decltype(x.tag()), Tag>);
        if (addr(p) != addr(m.p) || t != m.t) vt::fail("wrong-binding", "%s: structured bindings of (%p, %llu) give (%p, %llu)", op, addr(m.p), static_cast<unsigned long long>(m.t), addr(p), static_cast<unsigned long long>(t));
        if (addr(get<0>(x)) != addr(m.p) || get<1>(x) != m.t) vt::fail("wrong-get", "%s: get", op);
        auto const y = Pair::from_tagged(x.tagged_pointer());
        if (addr(y.pointer()) != addr(m.p) || y.tag() != m.t || !(y == x)) vt::fail("round-trip", "%s: from_tagged(tagged_pointer()) of (%p, %llu)", op, addr(m.p), static_cast<unsigned long long>(m.t));
    }
    static Tag draw_tag(vt::Rng &r) {
        uint64_t const m = tag_values();
        uint64_t v = r.below(4) == 0 ? m : r.below(4) == 0 ? 0 : m < 1000 ? r.below(m + 1) : (r.u64() & m);
        if (v == m) ++n_maxtags;
        return static_cast<Tag>(v);
    }
    // mk(r): a pointer for the pair
    template<class Mk, class Build> static void history(vt::Rng &r, Mk const &mk, Build const &build) {
        constexpr int N = 4;
        std::optional<Pair> x[N];
        Model m[N];
        for (int i = 0; i < N; ++i) x[i].emplace(), same("default construction", *x[i], m[i]);
        uint64_t h = Bits;
        if (vt::want_sample("pair type")) vt::sample("pair type", std::string(typeid(Pair).name()) + ", up to tag " + std::to_string(tag_values()) + ", 24 operations over 4 pairs");
        for (int step = 0; step < 24; ++step) {
            int i = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
            unsigned op = static_cast<unsigned>(r.below(9));
            switch (op) {
                case 0: { // construct from pointer and tag
                    auto *p = mk(r);
                    Tag t = draw_tag(r);
                    x[i].emplace(build(p, t));
                    m[i] = {p, t};
                    same("construction", *x[i], m[i]);
                    break;
                }
                case 1: {
                    Tag t = draw_tag(r);
                    x[i].emplace(nullptr, t);
                    m[i] = {nullptr, t};
                    ++n_nulls;
                    same("null construction", *x[i], m[i]);
                    break;
                }
                case 2: { x[i].emplace(nullptr); m[i] = {}; ++n_nulls; same("null construction without a tag", *x[i], m[i]); break; }
                case 3: { x[i] = *x[j]; m[i] = m[j]; same("copy assignment", *x[i], m[i]); break; }
                case 4: { Pair c = *x[j]; x[i].emplace(std::move(c)); m[i] = m[j]; same("copy and move construction", *x[i], m[i]); break; }
                case 5: { using std::swap; swap(*x[i], *x[j]); if (i != j) std::swap(m[i], m[j]); same("swap", *x[i], m[i]); break; }
                case 6: { std::swap(*x[i], *x[j]); if (i != j) std::swap(m[i], m[j]); same("std::swap", *x[i], m[i]); break; }
                case 7: { x[i] = Pair::from_tagged(x[j]->tagged_pointer()); m[i] = m[j]; same("round trip", *x[i], m[i]); break; }
                default: { // same pointer, other tag
                    Tag t = draw_tag(r);
                    if (m[j].p == nullptr) break;
                    x[i].emplace(Pair::template from_overaligned<(1u << Bits)>(m[j].p, t));
                    m[i] = {m[j].p, t};
                    same("new tag", *x[i], m[i]);
                    break;
                }
            }
            same("other pair", *x[j], m[j]);
            h = vt::mix(h, op * 16 + static_cast<unsigned>(i * 4 + j));
        }
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j) {
                ++n_orders;
                bool const eq = addr(m[i].p) == addr(m[j].p) && m[i].t == m[j].t;
                auto const o = *x[i] <=> *x[j];
                if ((*x[i] == *x[j]) != eq || (*x[i] != *x[j]) == eq || (o == 0) != eq || (o < 0) != (*x[i] < *x[j]) || (o > 0) != (*x[j] < *x[i]) || ((*x[j] <=> *x[i]) < 0) != (o > 0))
                    vt::fail("wrong-comparison", "(%p, %llu) and (%p, %llu)", addr(m[i].p), static_cast<unsigned long long>(m[i].t), addr(m[j].p), static_cast<unsigned long long>(m[j].t));
                for (int k = 0; k < N; ++k)
                    if (*x[i] < *x[j] && *x[j] < *x[k] && !(*x[i] < *x[k])) vt::fail("wrong-comparison", "< is not transitive");
            }
        vt::distinct(vt::mix(h, vt::hash_str(typeid(Pair).name())));
    }
};
// every tag with a few pointers: real objects (written through the pair) and made-up addresses up to the end of the address space
template<class T, class Tag, unsigned Bits> void one(vt::Rng &r) {
    using S = Suite<T, Tag, Bits>;
    using Pair = typename S::Pair;
    using Plain = std::remove_cv_t<T>;
    constexpr bool direct = std::is_void_v<T> ? Bits == 0 : Bits <= static_cast<unsigned>(std::countr_zero(alignof(std::conditional_t<std::is_void_v<T>, char, T>)));
    auto build = [](auto *p, Tag t) {
        if constexpr (direct) return Pair(p, t);
        else return Pair::template from_overaligned<(1u << Bits)>(p, t);
    };
    constexpr size_t align = size_t{1} << Bits;
    size_t const objsize = [] { if constexpr (std::is_void_v<T>) return size_t{1}; else return sizeof(T); }();
    size_t const stride = (objsize + align - 1) / align * align;
    std::unique_ptr<char, void (*)(void *)> block(static_cast<char *>(std::aligned_alloc(std::max(align, size_t{64}), (std::max(stride * 5, size_t{64}) + 4095) / 4096 * 4096)), &std::free);
    auto mk = [&](vt::Rng &q) -> T * {
        uintptr_t a;
        switch (q.below(4)) {
            case 0: a = static_cast<uintptr_t>(q.u64() >> q.below(40)); break;
            case 1: a = ~static_cast<uintptr_t>(0) - q.below(3) * align; break;
            default: a = reinterpret_cast<uintptr_t>(block.get() + stride * q.below(5)); break;
        }
        return reinterpret_cast<T *>(a & ~static_cast<uintptr_t>(align - 1));
    };
    S::history(r, mk, build);
    // all tags of one real object
    T *p = reinterpret_cast<T *>(block.get() + stride * r.below(5));
    if constexpr (!std::is_void_v<T>)
        if constexpr (std::is_integral_v<Plain>) new (const_cast<Plain *>(p)) Plain(static_cast<Plain>(42));
    uint64_t const n = S::tag_values();
    for (uint64_t t = 0;; t = t < 300 ? t + 1 : t * 2 + r.below(2)) {
        if (t > n) break;
        Pair const x = build(p, static_cast<Tag>(t));
        S::same("every tag", x, {p, static_cast<Tag>(t)});
        if constexpr (std::is_integral_v<Plain> && !std::is_const_v<T>) {
            *x.pointer() = static_cast<Plain>(t);
            if (*p != static_cast<Plain>(t)) vt::fail("wrong-pointer", "writing through the pair missed the object");
        }
    }
    if constexpr (direct && Bits > 0) {
        Pair x(p, static_cast<Tag>(n));
        if constexpr (!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_void_v<T>) {
            // from a pointer to non-const
            dtl::pointer_tag_pair<T const, Tag, Bits> c(p, static_cast<Tag>(n));
            Suite<T const, Tag, Bits>::same("conversion to const", c, {p, static_cast<Tag>(n)});
            dtl::pointer_tag_pair<T const volatile, Tag, Bits> cv(p, static_cast<Tag>(n));
            Suite<T const volatile, Tag, Bits>::same("conversion to const volatile", cv, {p, static_cast<Tag>(n)});
            dtl::pointer_tag_pair<void, Tag, Bits> v(p, static_cast<Tag>(n));
            Suite<void, Tag, Bits>::same("conversion to void", v, {p, static_cast<Tag>(n)});
            dtl::pointer_tag_pair<void const, Tag, Bits> vc(p, static_cast<Tag>(n));
            Suite<void const, Tag, Bits>::same("conversion to const void", vc, {p, static_cast<Tag>(n)});
            n_conv += 4;
        }
    }
}
// derived to base conversions
template<class From, class To, class Tag, unsigned Bits> void derived(vt::Rng &r, From *obj) {
    using S = Suite<To, Tag, Bits>;
    To *const want = obj;
    for (int k = 0; k < 4; ++k) {
        Tag const t = S::draw_tag(r);
        if constexpr (Bits <= static_cast<unsigned>(std::countr_zero(alignof(From)))) {
            dtl::pointer_tag_pair<To, Tag, Bits> x(obj, t);
            S::same("derived to base", x, {want, t});
            From *none = nullptr;
            dtl::pointer_tag_pair<To, Tag, Bits> y(none, t);
            S::same("null derived to base", y, {nullptr, t});
        }
        auto z = dtl::pointer_tag_pair<To, Tag, Bits>::template from_overaligned<(1u << Bits)>(obj, t);
        S::same("derived to base, overaligned", z, {want, t});
    }
    ++n_conv;
}

template<class T, class Tag, unsigned... B> void bits(vt::Rng &r, std::integer_sequence<unsigned, B...>) { (one<T, Tag, B>(r), ...); }
template<class T, unsigned N> void tags(vt::Rng &r) {
    bits<T, uint8_t>(r, std::make_integer_sequence<unsigned, N>{});
    bits<T, uint16_t>(r, std::make_integer_sequence<unsigned, N>{});
    bits<T, Color>(r, std::make_integer_sequence<unsigned, N>{});
    one<T, uint64_t, N - 1>(r);
    one<T, uint32_t, N - 1>(r);
    one<T, size_t, N / 2>(r);
    one<T, Big, N - 1>(r);
    if constexpr (N > 1) one<T, bool, 1>(r);
}
// usable in constant expressions where no real pointer is needed
constexpr bool constant() {
    using P = dtl::pointer_tag_pair<uint64_t, uint8_t>;
    P a, b(nullptr, 5), c(nullptr);
    if (a.tag() != 0 || b.tag() != 5 || c.tag() != 0 || !(a == c) || a == b) return false;
    swap(a, b);
    P d = a;
    return a.tag() == 5 && b.tag() == 0 && d.tag() == 5 && d == a;
}
static_assert(constant());

static void vt_main() {
#if PART == 0
    vt::run("small", 60, [](vt::Rng &r, uint64_t) {
        tags<char, 1>(r);
        tags<uint16_t, 2>(r);
        tags<uint32_t const, 3>(r);
        tags<uint64_t, 4>(r);
    });
    vt::run("small2", 60, [](vt::Rng &r, uint64_t) {
        tags<long double, 5>(r);
        tags<int *, 4>(r);
        tags<uint64_t volatile, 4>(r);
    });
#elif PART == 1
    vt::run("aligned", 60, [](vt::Rng &r, uint64_t) {
        tags<Al<64>, 7>(r);
        tags<Al<4096>, 13>(r);
    });
#elif PART == 2
    vt::run("overaligned", 60, [](vt::Rng &r, uint64_t) { // promised alignment above the type's own
        tags<char, 5>(r);
        tags<void, 7>(r);
        tags<void const, 4>(r);
        tags<uint16_t, 9>(r);
    });
    vt::run("inheritance", 200, [](vt::Rng &r, uint64_t) {
        auto objs = std::make_unique<E[]>(3);
        E *e = &objs[r.below(3)];
        D *d = e;
        derived<D, D, uint8_t, 4>(r, d);
        derived<E, D, uint8_t, 3>(r, e);
        derived<D, B1, uint8_t, 3>(r, d);
        derived<D, B2, uint8_t, 3>(r, d);
        derived<E, B2, uint16_t, 3>(r, e);
        derived<D, B2 const, uint32_t, 2>(r, d);
        derived<D, B3, uint8_t, 2>(r, d);
        derived<E, B3 const, bool, 1>(r, e);
        derived<D, V, uint8_t, 4>(r, d);
        derived<E, V, Color, 3>(r, e);
        derived<D const, V const, uint64_t, 4>(r, d);
    });
#endif
    vt::count("checks", n_checks);
    vt::count("maximal_tags", n_maxtags);
    vt::count("null_pointers", n_nulls);
    vt::count("conversions", n_conv);
    vt::count("comparisons", n_orders);
}
VT_MAIN
