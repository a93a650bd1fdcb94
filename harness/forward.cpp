// C26: DICE_MEMFN, forward_like, DICE_MOVE_IF_VALUE, overload sets and constant evaluation of bind_front, ignore_leak.
#include "fwd.hpp"
#include <dice/template-library/macro_util.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/type_traits.hpp>
#include <algorithm>
#include <functional>
#include <ranges>
#include <sys/wait.h>

// ------------------------------------------------------------------------------------------------ forward_like
template<class T, class U> void forward_like_one(U &&x, char const *what) {
    using Want = decltype(std::forward_like<T>(std::forward<U>(x)));
    static_assert(std::is_same_v<decltype(dtl::forward_like<T>(x)), decltype(std::forward_like<T>(x))>);
    static_assert(noexcept(dtl::forward_like<T>(x)));
    auto &book = ledger::book();
    auto const n = book.copies + book.moves;
    Want &&res = dtl::forward_like<T>(x);
    if (std::addressof(res) != std::addressof(x) || book.copies + book.moves != n) vt::fail("fwd:forward_like", "%s: another object", what);
    vt::count("forward_like_calls");
}
template<class T> void forward_like_all(vt::Rng &r, char const *what) {
    Obj1 o(fresh(r));
    Mo m(fresh(r));
    int const i = fresh(r);
    int arr[3] = {1, 2, 3};
    forward_like_one<T>(o, what);
    forward_like_one<T>(std::as_const(o), what);
    forward_like_one<T>(m, what);
    forward_like_one<T>(i, what);
    forward_like_one<T>(arr, what);
    forward_like_one<T>(std::as_const(arr), what);
    // the qualifiers decide whether a move or a copy follows
    auto &book = ledger::book();
    auto const c = book.copies, mv = book.moves;
    Obj1 taken(dtl::forward_like<T>(o));
    constexpr bool moves = !std::is_lvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>>;
    if (book.moves - mv != moves || book.copies - c != !moves || (o.v == ledger::moved_out) != moves) vt::fail("fwd:forward_like", "%s: %lu copies, %lu moves", what, book.copies - c, book.moves - mv);
}
static void forward_like_case(vt::Rng &r) {
    ledger::reset();
    forward_like_all<int>(r, "T");
    forward_like_all<int const>(r, "T const");
    forward_like_all<int &>(r, "T &");
    forward_like_all<int const &>(r, "T const &");
    forward_like_all<int &&>(r, "T &&");
    forward_like_all<int const &&>(r, "T const &&");
    forward_like_all<std::string>(r, "string");
    forward_like_all<Mo const &>(r, "Mo const &");
    forward_like_all<Mo &&>(r, "Mo &&");
    ledger::expect_live(0, "forward_like");
    vt::distinct(r.u64());
}

// ------------------------------------------------------------------------------------------------ DICE_MOVE_IF_VALUE
template<class T> T make(int v) { if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(v); else return T(v); }
template<class T> bool gone(T const &x) { if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return !x; else if constexpr (std::is_same_v<T, int>) return false; else return x.v == ledger::moved_out; }
static void mif(bool ok, char const *what) {
    vt::count("conditional_moves");
    if (!ok) vt::fail("fwd:move-if-value", "%s", what);
}
template<class T> void by_value(T a, bool moves) {
    T *const p = &a;
    auto &&res = DICE_MOVE_IF_VALUE(a);
    static_assert(std::is_same_v<decltype(DICE_MOVE_IF_VALUE(a)), T &&>);
    mif(&res == p && !gone(a), "a parameter by value is the same object");
    [[maybe_unused]] T taken = DICE_MOVE_IF_VALUE(a);
    mif(gone(a) == moves, "a parameter by value is moved");
    (void) taken;
}
template<class T> void by_forward(T &&a, bool moves) {
    using Want = std::conditional_t<std::is_lvalue_reference_v<T &&> || std::is_const_v<std::remove_reference_t<T>>, T &&, std::remove_reference_t<T> &&>;
    static_assert(std::is_same_v<decltype(DICE_MOVE_IF_VALUE(a)), Want>);
    auto *const p = &a;
    auto &&res = DICE_MOVE_IF_VALUE(a);
    mif(&res == p && !gone(a), "a reference parameter is the same object");
    if constexpr (std::is_constructible_v<std::remove_cvref_t<T>, Want>) {
        std::remove_cvref_t<T> taken(DICE_MOVE_IF_VALUE(a));
        mif(gone(a) == moves, "a reference parameter is moved exactly if it is a non-const rvalue reference");
    }
}
template<class T> void move_if_value(vt::Rng &r, bool detect) {
    int const n = fresh(r);
    T v = make<T>(n);
    T &ref = v;
    T const &cref = v;
    T &&rref = std::move(v);
    T const &&crref = std::move(v);
    T const cv = make<T>(n);
    T const &ccref = cv;
    auto &book = ledger::book();
    auto const before = book.copies + book.moves;
    auto &&r1 = DICE_MOVE_IF_VALUE(v);
    auto &&r2 = DICE_MOVE_IF_VALUE(ref);
    auto &&r3 = DICE_MOVE_IF_VALUE(cref);
    auto &&r4 = DICE_MOVE_IF_VALUE(rref);
    auto &&r5 = DICE_MOVE_IF_VALUE(crref);
    auto &&r6 = DICE_MOVE_IF_VALUE(ccref);
    static_assert(std::is_same_v<decltype(r1), T &&> && std::is_same_v<decltype(r2), T &> && std::is_same_v<decltype(r3), T const &> && std::is_same_v<decltype(r4), T &&> && std::is_same_v<decltype(r5), T const &&> && std::is_same_v<decltype(r6), T const &>);
    mif(&r1 == &v && &r2 == &v && &r3 == &v && &r4 == &v && &r5 == &v && &r6 == &cv && book.copies + book.moves == before && !gone(v), "a variable is the same object");
    if constexpr (std::is_copy_constructible_v<T>) {
        T a = DICE_MOVE_IF_VALUE(ref), b = DICE_MOVE_IF_VALUE(cref), c = DICE_MOVE_IF_VALUE(crref), d = DICE_MOVE_IF_VALUE(cv);
        mif(!gone(v) && !gone(cv), "references, constants and const rvalue references are not moved");
        (void) a, (void) b, (void) c, (void) d;
    }
    by_forward(ref, false);
    by_forward(cref, false);
    by_forward(static_cast<T const &&>(cv), false);
    by_forward(make<T>(n), detect);
    by_value(make<T>(n), detect);
    { T t = make<T>(n); by_forward(std::move(t), detect); }
    T x = DICE_MOVE_IF_VALUE(rref);
    mif(gone(v) == detect, "an rvalue reference is moved");
    T y = make<T>(n);
    T z = DICE_MOVE_IF_VALUE(y);
    mif(gone(y) == detect, "a variable is moved");
    (void) x, (void) z;
}
static void move_case(vt::Rng &r) {
    ledger::reset();
    move_if_value<Obj1>(r, true);
    move_if_value<Mo>(r, true);
    move_if_value<std::unique_ptr<int>>(r, true);
    move_if_value<int>(r, false);
    ledger::expect_live(0, "DICE_MOVE_IF_VALUE");
    vt::distinct(r.u64());
}

// ------------------------------------------------------------------------------------------------ DICE_MEMFN
struct Host {
    int base;
    std::vector<Seen> seen;
    int calls = 0;
    Host const *last = nullptr;
    template<class... A> void note(A &&...a) {
        ++calls, last = this, g_seen.clear();
        (see(std::forward<A>(a)), ...);
        seen = g_seen;
    }
    int none() { note(); return base; }
    template<class... A> int any(A &&...a) { note(std::forward<A>(a)...); (consume(std::forward<A>(a)), ...); return base + static_cast<int>(sizeof...(A)); }
    int over(int) { calls = 100; return 1; }
    int over(double) { calls = 200; return 2; }
    int over(std::string const &) { calls = 300; return 3; }
    int &cell() { ++calls; return base; }
    template<class T> T cast(int x) { ++calls; return static_cast<T>(x + base); }
    int which() { return 1; }
    int which() const { return 2; }
    Obj1 obj(Obj1 a, Mo &&m, int x) { ++calls; Mo taken(std::move(m)); return Obj1(a.get() * 1000 + taken.get() * 10 + x); }
    int fails(int x) { ++calls; if (x == base) throw ledger::Boom{}; return x; }
    virtual int virt(int x) { ++calls; return x; }
    virtual ~Host() = default;

    void run(vt::Rng &r) {
        auto reset = [&] { calls = 0, last = nullptr, seen.clear(); };
        auto expect = [&](int n, std::vector<Seen> const &want, char const *what) {
            bool ok = calls == n && (n == 0 || last == this) && seen.size() == want.size();
            for (size_t i = 0; ok && i < want.size(); ++i) ok = seen[i].like(want[i]) && (!want[i].addr || seen[i].addr == want[i].addr);
            if (!ok) vt::fail("fwd:memfn", "%s: %d calls with %s, expected %d with %s", what, calls, text(seen).c_str(), n, text(want).c_str());
            vt::count("member_calls", static_cast<uint64_t>(calls));
        };
        auto is = []<class A>(A &&a) { g_seen.clear(); see(std::forward<A>(a)); return g_seen[0]; };
        base = fresh(r);
        reset();
        if (DICE_MEMFN(none)() != base) vt::fail("fwd:memfn", "none");
        expect(1, {}, "no arguments");
        auto fn = DICE_MEMFN(any);
        reset(); // creating the callable does not call
        expect(0, {}, "creation");
        Obj1 o(fresh(r)), pre(fresh(r));
        Mo m(fresh(r));
        std::string s(r.below(30), 'z');
        { auto a = is(o), b = is(std::as_const(s)); reset(); if (fn(o, std::as_const(s)) != base + 2) vt::fail("fwd:memfn", "result"); expect(1, {a, b}, "lvalues"); }
        {
            auto a = is(std::move(m)), b = is(static_cast<Obj1 const &&>(o));
            reset();
            fn(std::move(m), static_cast<Obj1 const &&>(o));
            expect(1, {a, b}, "rvalues");
            if (m.v != ledger::moved_out || o.v == ledger::moved_out) vt::fail("fwd:memfn", "rvalue arguments");
        }
        { // named arguments come first; they are the variables themselves, with their values at the time of the call
            int k = fresh(r);
            auto with = DICE_MEMFN(any, pre, k, std::as_const(s));
            k = fresh(r);
            pre.v = fresh(r);
            int t = 7;
            auto a = is(pre), b = is(k), c = is(std::as_const(s)), d = is(t);
            for (int i = 0; i < 3; ++i) {
                reset();
                if (with(t) != base + 4) vt::fail("fwd:memfn", "result with named arguments");
                expect(1, {a, b, c, d}, "named and runtime arguments");
            }
            auto copy = with;
            reset();
            copy(t);
            expect(1, {a, b, c, d}, "a copy of the callable");
        }
        { // any call operator of the const callable works; overloads and categories are those of the member
            auto const over = DICE_MEMFN(over);
            bool ok = over(1) == 1 && over(1.5) == 2 && over("x") == 3 && over(std::string("y")) == 3;
            auto const cl = DICE_MEMFN(cell);
            static_assert(std::is_same_v<decltype(cl()), int &>);
            ok = ok && &cl() == &base;
            auto const ca = DICE_MEMFN(template cast<double>);
            static_assert(std::is_same_v<decltype(ca(1)), double>);
            ok = ok && ca(2) == 2.0 + base && constness() == 2 && DICE_MEMFN(which)() == 1 && DICE_MEMFN(virt, 3)() == virtual_answer(3);
            if (!ok) vt::fail("fwd:memfn", "overloads, templates, references");
        }
        {
            int const x = fresh(r);
            Mo arg(fresh(r));
            auto const mv = arg.get();
            auto f = DICE_MEMFN(obj, pre);
            reset();
            Obj1 res = f(std::move(arg), x);
            if (calls != 1 || res.get() != pre.get() * 1000 + mv * 10 + x || pre.v == ledger::moved_out) vt::fail("fwd:memfn", "by-value parameters");
            auto g = DICE_MEMFN(fails);
            bool threw = false;
            reset();
            try {
                g(base);
            } catch (ledger::Boom const &) {
                threw = true;
            }
            if (!threw || g(base + 1) != base + 1 || calls != 2) vt::fail("fwd:memfn", "exceptions");
        }
        { // with algorithms and ranges: once per element
            std::vector<int> v(r.below(9));
            for (int &x : v) x = fresh(r);
            reset();
            int sum = 0, want = 0;
            for (int x : v | std::views::transform(DICE_MEMFN(virt))) sum += x;
            for (int x : v) want += virtual_answer(x);
            if (sum != want || calls != static_cast<int>(2 * v.size())) vt::fail("fwd:memfn", "views::transform: %d calls for %zu elements", calls, v.size());
            reset();
            std::ranges::for_each(v, DICE_MEMFN(any, base));
            if (calls != static_cast<int>(v.size())) vt::fail("fwd:memfn", "for_each: %d calls for %zu elements", calls, v.size());
            std::function<int(int)> held = DICE_MEMFN(template cast<int>);
            if (held(5) != 5 + base) vt::fail("fwd:memfn", "std::function");
        }
        vt::distinct(r.u64());
    }
    int constness() const { return DICE_MEMFN(which)(); }
    int virtual_answer(int x) { auto const c = calls; int const res = virt(x); (void) c; return res; }
};
struct Child : Host {
    using Host::Host;
    int virt(int x) override { ++calls; return 2 * x; }
};

// ------------------------------------------------------------------------------------------------ overload sets as objects, constants
constexpr int plus(int a, int b) { return a + b; }
static_assert(dtl::bind_front<plus>(3)(4) == 7 && dtl::bind_front<plus>()(1, 2) == 3 && dtl::bind_front<plus>(3, 5)() == 8);
static_assert(dtl::bind_front<[](int a, auto... b) { return (a * ... * b); }>(2)(3, 4) == 24);
static_assert(dtl::overloaded{[](int) { return 1; }, [](double) { return 2; }}(1.5) == 2);
static void overload_case(vt::Rng &r) {
    int const x = fresh(r);
    int calls = 0;
    auto set = dtl::overloaded{[&](int a) { return ++calls, a + x; }, [&](std::string const &s) { return ++calls, static_cast<int>(s.size()) * 2; }, [&](auto const &...a) { return ++calls, static_cast<int>(sizeof...(a)) + 1000; }};
    auto copy = set;
    bool ok = set(5) == 5 + x && set(std::string("abc")) == 6 && set("abc") == 1001 && set() == 1000 && set(1, 2) == 1002 && copy(6) == 6 + x && calls == 6;
    dtl::overloaded state{[n = x](int) mutable { return n++; }, [m = 100](char const *) mutable { return m++; }};
    auto other = state;
    ok = ok && state(1) == x && state(1) == x + 1 && state("") == 100 && other(1) == x && other("") == 100 && state("") == 101;
    auto mo = dtl::overloaded{[p = std::make_unique<int>(x)](int) { return *p; }, [](long) { return -1; }};
    auto moved = std::move(mo);
    ok = ok && moved(1) == x && moved(1L) == -1;
    if (!ok) vt::fail("fwd:overloaded", "overload set with x=%d, %d calls", x, calls);
    vt::count("overload_sets");
    vt::distinct(static_cast<uint64_t>(x));
}

// ------------------------------------------------------------------------------------------------ ignore_leak
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check(void);
static void *volatile g_hide;
[[gnu::noinline]] static void leak(size_t n, size_t size, size_t ignore) {
    for (size_t i = 0; i < n; ++i) {
        char *p = new char[size];
        memset(p, 1, size);
        if (i < ignore) dtl::ignore_leak(p);
        g_hide = p;
    }
    g_hide = nullptr;
}
[[gnu::noinline]] static void scrub(int depth) {
    volatile char buf[4096];
    for (size_t i = 0; i < sizeof buf; ++i) buf[i] = 0;
    if (depth) scrub(depth - 1);
}
static void leak_case(vt::Rng &r) { // in a child of its own: what is leaked stays leaked
    size_t const n = 1 + r.below(4), ignore = r.coin() ? n : r.below(n + 1), size = 16 + r.below(3000);
    fflush(nullptr);
    pid_t const pid = fork();
    if (pid == 0) {
        close(2);
        close(1);
        leak(n, size, ignore);
        scrub(8);
        _exit(__lsan_do_recoverable_leak_check() ? 3 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool const reported = WIFEXITED(st) && WEXITSTATUS(st) == 3;
    if (!WIFEXITED(st) || (ignore == n && reported)) vt::fail("fwd:ignore-leak", "%zu of %zu blocks of %zu bytes are ignored: status %x", ignore, n, size, st);
    // (whether unignored blocks are found depends on what the registers and stack still hold: counted, not judged)
    if (ignore < n && reported) vt::count("other_leaks_reported");
    if (ignore == n) vt::count("ignored_leaks");
    vt::distinct(n * 100000 + ignore * 10000 + size);
}
#endif

static void vt_main() {
    vt::run("forward_like", 100, [](vt::Rng &r, uint64_t) { forward_like_case(r); });
    vt::run("move_if_value", 100, [](vt::Rng &r, uint64_t) { move_case(r); });
    vt::run("memfn", 300, [](vt::Rng &r, uint64_t i) {
        ledger::reset();
        {
            Child c;
            Host h;
            i & 1 ? c.run(r) : h.run(r);
        }
        ledger::expect_live(0, "DICE_MEMFN");
    });
    vt::run("overloaded", 50, [](vt::Rng &r, uint64_t) { overload_case(r); });
#if defined(__SANITIZE_ADDRESS__)
    vt::run("ignore_leak", 20, [](vt::Rng &r, uint64_t) { leak_case(r); });
#else
    int dummy = 0;
    dtl::ignore_leak(&dummy); // no sanitizer: nothing happens
#endif
}
VT_MAIN
