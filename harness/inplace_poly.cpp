// C08: random operation sequences on inplace_polymorphic against a (dynamic type, payload) model with an object ledger and injected exceptions.
#include "ledger.hpp"
#include <array>
#include <dice/template-library/inplace_polymorphic.hpp>
#include <memory>
#include <optional>
#include <string>
#include <variant>

namespace dtl = dice::template_library;
using ledger::Boom;
using ledger::tick;

struct Seen {
    int kind, val;
    bool operator==(Seen const &) const = default;
};

// ---- family 1: virtual destructor, copyable and movable, everything may throw, different sizes and alignments
namespace full {
struct Base {
    virtual ~Base() = default;
    virtual Seen seen() const = 0;
    virtual void set(int v) = 0;
    virtual void const *whole() const = 0;
    virtual void copy_to(Base *dst) const = 0;
    virtual void move_to(Base *dst) = 0;
};
template<int K, size_t Extra, size_t Align, bool Throws>
struct alignas(Align) D final : Base {
    static constexpr int kind = K;
    ledger::Obj<K, Throws ? 7u : 0u> o;
    unsigned char extra[Extra];
    explicit D(int v) noexcept(!Throws) : o(v) { std::memset(extra, v & 0xff, Extra); }
    D(int v, int w) noexcept(!Throws) : o(v, w) { std::memset(extra, (v * 1000 + w) & 0xff, Extra); }
    D() noexcept(!Throws) : o(0) { std::memset(extra, 0, Extra); }
    D(D const &d) noexcept(!Throws) : Base(), o(d.o) { std::memcpy(extra, d.extra, Extra); }
    D(D &&d) noexcept(!Throws) : Base(), o(std::move(d.o)) { std::memcpy(extra, d.extra, Extra); }
    Seen seen() const override {
        int v = o.get();
        if (v != ledger::moved_out)
            for (auto b : extra)
                if (b != (v & 0xff)) return {K, -77};
        return {K, v};
    }
    void set(int v) override {
        o.v = v;
        std::memset(extra, v & 0xff, Extra);
    }
    void const *whole() const override { return this; }
    void copy_to(Base *dst) const override { new (dst) D{*this}; }
    void move_to(Base *dst) override { new (dst) D{std::move(*this)}; }
};
using A = D<1, 4, 8, true>;
using B = D<2, 200, 8, true>;
using C = D<3, 40, 64, false>;
using P = dtl::inplace_polymorphic<Base, A, B, C>;
constexpr bool tracked = true, copyable = true, movable = true, throws = true;
}
// ---- family 2: noexcept copy/move interface
namespace quiet {
struct Base {
    virtual ~Base() = default;
    virtual Seen seen() const = 0;
    virtual void set(int v) = 0;
    virtual void const *whole() const = 0;
    virtual void copy_to(Base *dst) const noexcept = 0;
    virtual void move_to(Base *dst) noexcept = 0;
};
template<int K, size_t Extra, size_t Align, bool Throws>
struct alignas(Align) D final : Base {
    static constexpr int kind = K;
    ledger::Obj<K, Throws ? 1u : 0u> o; // only value construction throws
    unsigned char extra[Extra] = {};
    explicit D(int v) noexcept(!Throws) : o(v) {}
    D(int v, int w) noexcept(!Throws) : o(v, w) {}
    D() noexcept(!Throws) : o(0) {}
    Seen seen() const override { return {K, o.get()}; }
    void set(int v) override { o.v = v; }
    void const *whole() const override { return this; }
    void copy_to(Base *dst) const noexcept override { new (dst) D{*this}; }
    void move_to(Base *dst) noexcept override { new (dst) D{std::move(*this)}; }
};
using A = D<1, 1, 8, true>;
using B = D<2, 90, 16, false>;
using C = D<3, 3, 32, true>;
using P = dtl::inplace_polymorphic<Base, A, B, C>;
constexpr bool tracked = true, copyable = true, movable = true, throws = true;
}
// ---- family 3: trivially destructible types, no virtual destructor, throwing construction/copy/move
namespace triv {
struct Base {
    virtual Seen seen() const = 0;
    virtual void set(int v) = 0;
    virtual void const *whole() const = 0;
    virtual void copy_to(Base *dst) const = 0;
    virtual void move_to(Base *dst) = 0;
};
template<int K, size_t Align, bool Throws>
struct alignas(Align) D final : Base {
    static constexpr int kind = K;
    int v;
    static void t() { if constexpr (Throws) tick(); }
    D() noexcept(!Throws) : v(0) { t(); }
    explicit D(int x) noexcept(!Throws) : v(x) { t(); }
    D(int x, int y) noexcept(!Throws) : v(x * 1000 + y) { t(); }
    D(D const &d) noexcept(!Throws) : Base(), v(d.v) { t(); }
    D(D &&d) noexcept(!Throws) : Base(), v(d.v) {
        t();
        d.v = ledger::moved_out;
    }
    Seen seen() const override { return {K, v}; }
    void set(int x) override { v = x; }
    void const *whole() const override { return this; }
    void copy_to(Base *dst) const override { new (dst) D{*this}; }
    void move_to(Base *dst) override { new (dst) D{std::move(*this)}; }
};
using A = D<1, 8, true>;
using B = D<2, 32, true>;
using C = D<3, 8, false>;
using P = dtl::inplace_polymorphic<Base, A, B, C>;
static_assert(std::is_trivially_destructible_v<A> && std::is_trivially_destructible_v<B>);
constexpr bool tracked = false, copyable = true, movable = true, throws = true;
}
// ---- family 4: movable only
namespace moveonly {
struct Base {
    virtual ~Base() = default;
    virtual Seen seen() const = 0;
    virtual void set(int v) = 0;
    virtual void const *whole() const = 0;
    virtual void move_to(Base *dst) = 0;
};
template<int K, bool Throws>
struct D final : Base {
    static constexpr int kind = K;
    ledger::Obj<K, ledger::no_copy | (Throws ? 5u : 0u)> o;
    std::unique_ptr<int> heap = std::make_unique<int>(K);
    D() noexcept(!Throws) : o(0) {}
    explicit D(int v) noexcept(!Throws) : o(v) {}
    D(int v, int w) noexcept(!Throws) : o(v, w) {}
    D(D &&) = default;
    Seen seen() const override { return {heap && *heap != K ? -5 : K, o.get()}; }
    void set(int v) override { o.v = v; }
    void const *whole() const override { return this; }
    void move_to(Base *dst) override { new (dst) D{std::move(*this)}; }
};
using A = D<1, true>;
using B = D<2, false>;
using C = D<3, true>;
using P = dtl::inplace_polymorphic<Base, A, B, C>;
static_assert(!std::is_copy_constructible_v<P> && !std::is_copy_assignable_v<P> && std::is_move_constructible_v<P>);
constexpr bool tracked = true, copyable = false, movable = true, throws = true;
}
// ---- family 5: neither copyable nor movable
namespace fixed {
struct Base {
    virtual ~Base() = default;
    virtual Seen seen() const = 0;
    virtual void set(int v) = 0;
    virtual void const *whole() const = 0;
};
template<int K, bool Throws>
struct D final : Base {
    static constexpr int kind = K;
    ledger::Obj<K, Throws ? 7u : 0u> o;
    std::string s = "some text that needs the heap to be stored, because it is long";
    D() noexcept(!Throws) : o(0) {}
    explicit D(int v) noexcept(!Throws) : o(v) {}
    D(int v, int w) noexcept(!Throws) : o(v, w) {}
    D(D const &) = delete;
    Seen seen() const override { return {s.size() == 62 ? K : -5, o.get()}; }
    void set(int v) override { o.v = v; }
    void const *whole() const override { return this; }
};
using A = D<1, true>;
using B = D<2, true>;
using C = D<3, false>;
using P = dtl::inplace_polymorphic<Base, A, B, C>;
static_assert(!std::is_copy_constructible_v<P> && !std::is_move_constructible_v<P>);
constexpr bool tracked = true, copyable = false, movable = false, throws = true;
}

struct M {
    bool alive = false, valueless = false;
    Seen s{};
};

template<class P, class Base, class A, class B, class C, bool Tracked, bool Copy, bool Move>
struct Prog {
    static constexpr int N = 4;
    alignas(P) unsigned char mem[N][sizeof(P)];
    M m[N];
    std::string log;
    vt::Rng &r;
    int next = 1;
    explicit Prog(vt::Rng &rr) : r(rr) {}
    P &at(int k) { return *std::launder(reinterpret_cast<P *>(mem[k])); }
    void bad(char const *key, std::string s) { vt::fail_s(key, s + " | " + log); }

    template<class F> static bool bva(F &&f) {
        try {
            f();
        } catch (std::bad_variant_access const &) {
            return true;
        }
        return false;
    }
    void check(int k) {
        P &p = at(k);
        P const &c = p;
        if (p.valueless_by_exception() != m[k].valueless) return bad("valueless", vt::fmt("object %d: valueless %d, expected %d", k, p.valueless_by_exception(), m[k].valueless));
        if (m[k].valueless) {
            if (!bva([&] { (void) p.get(); }) || !bva([&] { (void) c.get(); }) || !bva([&] { (void) *p; }) || !bva([&] { (void) *c; }) || !bva([&] { (void) p->seen(); }) || !bva([&] { (void) c->seen(); }))
                bad("bad-access", "access to a valueless object does not throw");
            return;
        }
        Base &b = p.get();
        if (&b != &*p || &b != p.operator->() || &b != &c.get() || &b != &*c || &b != c.operator->()) bad("access", "accessors refer to different objects");
        void const *lo = &p, *hi = &p + 1;
        void const *w = b.whole();
        if (w < lo || w >= hi) bad("storage", "object outside of the storage");
        size_t al = m[k].s.kind == 1 ? alignof(A) : m[k].s.kind == 2 ? alignof(B) : alignof(C);
        if (reinterpret_cast<uintptr_t>(w) % al) bad("alignment", "misaligned object");
        Seen s = b.seen();
        if (!(s == m[k].s)) bad("value", vt::fmt("object %d holds %d:%d, expected %d:%d", k, s.kind, s.val, m[k].s.kind, m[k].s.val));
        if (typeid(b) != (m[k].s.kind == 1 ? typeid(A) : m[k].s.kind == 2 ? typeid(B) : typeid(C))) bad("dynamic-type", "typeid");
    }
    void kill(int k) {
        if (m[k].alive) {
            at(k).~P();
            m[k].alive = false;
        }
        vt::scrub(mem[k], sizeof mem[k]);
    }
    // returns true if op succeeded; on an injected exception sets valueless/unchanged by looking (both allowed)
    template<class F> bool guarded(bool inject, int target, F &&f) {
        if (inject) ledger::arm(static_cast<long>(r.below(3)));
        try {
            f();
            ledger::disarm();
            return true;
        } catch (Boom const &) {
            ledger::disarm();
            vt::count("exceptions_from_elements");
            log += "!throw ";
            if (target >= 0 && m[target].alive) {
                if (at(target).valueless_by_exception()) {
                    m[target].valueless = true;
                    vt::count("became_valueless");
                }
            }
            return false;
        }
    }
    template<class F> void with_type(int kind, F &&f) {
        if (kind == 1) f.template operator()<A>();
        else if (kind == 2) f.template operator()<B>();
        else f.template operator()<C>();
    }
    void moved(int j) { if (!m[j].valueless) m[j].s.val = ledger::moved_out; }
    void step() {
        int k = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N)), kind = 1 + static_cast<int>(r.below(3)), v = next++;
        bool inj = r.chance(35), two = r.chance(25);
        unsigned op = static_cast<unsigned>(r.below(10));
        if (op >= 4 && op <= 7 && !m[k].alive) op = r.below(2);
        int value = two ? v * 1000 + 5 : v;
        switch (op) {
            case 0:
                kill(k);
                log += vt::fmt("default(%d) ", k);
                if (guarded(inj, -1, [&] { new (mem[k]) P(); })) m[k] = {true, false, {A::kind, 0}};
                break;
            case 1:
                kill(k);
                log += vt::fmt("in_place(%d,%d:%d) ", k, kind, value);
                with_type(kind, [&]<class T>() {
                    if (guarded(inj, -1, [&] { two ? new (mem[k]) P(std::in_place_type<T>, v, 5) : new (mem[k]) P(std::in_place_type<T>, v); })) m[k] = {true, false, {kind, value}};
                });
                break;
            case 2:
                if (j == k || !m[j].alive) break;
                if constexpr (Copy) {
                    kill(k);
                    log += vt::fmt("copy(%d<-%d) ", k, j);
                    if (guarded(inj, -1, [&] { new (mem[k]) P(std::as_const(at(j))); })) m[k] = m[j];
                }
                break;
            case 3:
                if (j == k || !m[j].alive) break;
                if constexpr (Move) {
                    kill(k);
                    log += vt::fmt("move(%d<-%d) ", k, j);
                    if (guarded(inj, -1, [&] { new (mem[k]) P(std::move(at(j))); })) {
                        m[k] = m[j];
                        moved(j);
                    }
                }
                break;
            case 4:
                if (!m[j].alive) break;
                if constexpr (Copy) {
                    log += vt::fmt("assign(%d<-%d) ", k, j);
                    if (guarded(inj, k, [&] { if (&(at(k) = std::as_const(at(j))) != &at(k)) bad("return", "assignment returns something else"); })) m[k] = m[j];
                }
                break;
            case 5:
                if (!m[j].alive || k == j) break;
                if constexpr (Move) {
                    log += vt::fmt("massign(%d<-%d) ", k, j);
                    if (guarded(inj, k, [&] { if (&(at(k) = std::move(at(j))) != &at(k)) bad("return", "assignment returns something else"); })) {
                        m[k] = m[j];
                        moved(j);
                    }
                }
                break;
            case 6: case 7:
                log += vt::fmt("emplace(%d,%d:%d) ", k, kind, value);
                with_type(kind, [&]<class T>() {
                    if (guarded(inj, k, [&] { two ? at(k).template emplace<T>(v, 5) : at(k).template emplace<T>(v); })) m[k] = {true, false, {kind, value}};
                });
                break;
            case 8:
                if (!m[k].alive || m[k].valueless) break;
                log += vt::fmt("set(%d,%d) ", k, v);
                at(k)->set(v);
                m[k].s.val = v;
                break;
            default:
                log += vt::fmt("destroy(%d) ", k);
                kill(k);
        }
    }
    void run() {
        ledger::reset();
        unsigned n = 4 + static_cast<unsigned>(r.below(28));
        for (unsigned i = 0; i < n; ++i) {
            step();
            size_t live = 0;
            uint64_t h = 0;
            for (int k = 0; k < N; ++k) {
                if (m[k].alive) check(k);
                if (m[k].alive && !m[k].valueless) ++live;
                h = vt::mix(h, m[k].alive ? m[k].valueless ? 2 : static_cast<uint64_t>(m[k].s.kind * 1000 + m[k].s.val) : 1);
            }
            ledger::expect_live(Tracked ? live : 0, log.c_str());
            vt::count("operations");
            vt::distinct(vt::mix(h, vt::hash_str(log)));
            if (vt::st().failures) break;
        }
        for (int k = 0; k < N; ++k) kill(k);
        ledger::expect_live(0, log.c_str());
        if (vt::want_sample(vt::st().cur_suite)) vt::sample(vt::st().cur_suite, log);
    }
};

// ---- Base that is not at offset zero: only addresses are compared, nothing is called through them
namespace offset {
struct Other {
    virtual ~Other() = default;
    virtual int other() const { return 1; }
    long pad[3] = {1, 2, 3};
};
struct Base {
    virtual ~Base() = default;
    virtual int f() const = 0;
};
struct D : Other, Base {
    static inline Base const *at = nullptr;
    D() { at = this; }
    int f() const override { return 7; }
};
}

#define FAMILY(ns, n) vt::run(#ns, n, [](vt::Rng &r, uint64_t) { Prog<ns::P, ns::Base, ns::A, ns::B, ns::C, ns::tracked, ns::copyable, ns::movable>(r).run(); })

// ---- constructor arguments arrive as they were passed: identity, value category, move-only values
namespace args {
struct Arg { // records how it was passed on
    int id;
    int copies = 0, moves = 0;
    explicit Arg(int i) : id(i) {}
    Arg(Arg const &o) : id(o.id), copies(o.copies + 1), moves(o.moves) {}
    Arg(Arg &&o) noexcept : id(o.id), copies(o.copies), moves(o.moves + 1) { o.id = -1; }
};
struct Base {
    std::string how;
    void const *addr = nullptr;
    std::unique_ptr<int> owned;
    int id = 0, copies = 0, moves = 0;
    virtual ~Base() = default;
    virtual int kind() const = 0;
};
template<int K>
struct D final : Base {
    unsigned char extra[K * 40];
    int kind() const override { return K; }
    D() = default;
    explicit D(Arg &a) : D(&a, "lvalue") { id = a.id; }
    explicit D(Arg const &a) : D(&a, "const lvalue") { id = a.id; }
    explicit D(Arg &&a) : D(&a, "rvalue") { take(std::move(a)); }
    D(Arg const &&a) = delete;
    D(Arg &a, Arg &&b, std::unique_ptr<int> p) : D(&a, "lvalue,rvalue,value") {
        owned = std::move(p);
        take(std::move(b));
    }
    D(Arg const &a, Arg &b, int (&arr)[3]) : D(&a, b.id == arr[0] ? "const lvalue,lvalue,array" : "?") { arr[1] = a.id; }

private:
    D(void const *p, char const *h) {
        how = h;
        addr = p;
    }
    void take(Arg a) {
        id = a.id;
        copies = a.copies;
        moves = a.moves;
    }
};
using P = dtl::inplace_polymorphic<Base, D<1>, D<2>>;
template<int K>
void go(vt::Rng &r) {
    bool em = r.coin();
    std::optional<P> p;
    std::string log;
    auto with = [&](auto &&...a) {
        if (em) {
            if (r.coin()) p.emplace(std::in_place_type<D<3 - K>>);
            else p.emplace();
            p->template emplace<D<K>>(std::forward<decltype(a)>(a)...);
        } else p.emplace(std::in_place_type<D<K>>, std::forward<decltype(a)>(a)...);
        vt::count("forwarded_argument_lists");
        return p->get().kind() == K;
    };
    int id = static_cast<int>(r.below(1000));
    Arg a(id), b(id + 1);
    Arg const c(id + 2);
    auto is = [&](char const *how, void const *addr, int want_id) {
        Base const &x = p->get();
        vt::distinct(vt::mix(vt::hash_str(std::string(how)), static_cast<uint64_t>(K * 2 + em)));
        VT_CHECK("forwarding", x.how == how && x.addr == addr && x.id == want_id && x.copies == 0 && x.moves <= 1, "%s: constructor saw '%s' id %d (%d copies, %d moves), passed '%s' id %d",
                 em ? "emplace" : "in_place", x.how.c_str(), x.id, x.copies, x.moves, how, want_id);
    };
    VT_CHECK("forwarding", with(a));
    is("lvalue", &a, id);
    VT_CHECK("forwarding", a.id == id);
    VT_CHECK("forwarding", with(c));
    is("const lvalue", &c, id + 2);
    VT_CHECK("forwarding", with(std::move(b)));
    is("rvalue", &b, id + 1);
    VT_CHECK("forwarding", b.id == -1);
    Arg d(id + 5);
    auto up = std::make_unique<int>(id);
    int *raw = up.get();
    VT_CHECK("forwarding", with(a, std::move(d), std::move(up)));
    is("lvalue,rvalue,value", &a, id + 5);
    VT_CHECK("forwarding", p->get().owned.get() == raw && !up && d.id == -1);
    int arr[3] = {a.id, 0, 0};
    VT_CHECK("forwarding", with(c, a, arr));
    VT_CHECK("forwarding", p->get().how == "const lvalue,lvalue,array" && p->get().addr == &c && arr[1] == c.id);
}
}

static void vt_main() {
    vt::run("forwarded-arguments", 40, [](vt::Rng &r, uint64_t i) { i % 2 ? args::go<1>(r) : args::go<2>(r); });
    FAMILY(full, 2500);
    FAMILY(quiet, 1500);
    FAMILY(triv, 2500);
    FAMILY(moveonly, 1500);
    FAMILY(fixed, 1500);
    vt::run("base-at-offset", 1, [](vt::Rng &, uint64_t) {
        alignas(16) static unsigned char buf[sizeof(dtl::inplace_polymorphic<offset::Base, offset::D>)];
        auto *p = new (buf) dtl::inplace_polymorphic<offset::Base, offset::D>();
        VT_CHECK("base-offset", &p->get() == offset::D::at, "get() refers to an address that is not the base subobject of the stored object");
    }, false);
}
VT_MAIN
