// C25: fmt_join, operator<< for formattable types, DICE_DBG.  The output bytes are compared with formatting every element/value on its own.
#include <dice/template-library/format_to_ostream.hpp>
#include "vt.hpp"
#include <dice/template-library/dbg.hpp>
#include <dice/template-library/fmt_join.hpp>
#include <cmath>
#include <complex>
#include <generator>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>

namespace dtl = dice::template_library;
#ifndef PART
#define PART 0
#endif

static int g_calls, g_throw_at = -1;
struct Boom {};
template<int K> struct Rec { // own format specification: 'k' key only, 'p' payload only
    int key = 0, payload = 0;
    friend bool operator==(Rec const &, Rec const &) = default;
};
template<int K, class C> struct std::formatter<Rec<K>, C> {
    char mode = 'b';
    constexpr auto parse(auto &ctx) {
        auto it = ctx.begin();
        if (it == ctx.end() || *it == '}') return it;
        if (*it != 'k' && *it != 'p') throw std::format_error("bad spec");
        mode = static_cast<char>(*it++);
        return it;
    }
    auto format(Rec<K> const &r, auto &ctx) const {
        if (g_calls++ == g_throw_at) throw Boom{};
        if constexpr (std::is_same_v<C, char>) {
            if (mode == 'k') return std::format_to(ctx.out(), "k{}", r.key);
            if (mode == 'p') return std::format_to(ctx.out(), "p{}", r.payload);
            return std::format_to(ctx.out(), "<{},{}>", r.key, r.payload);
        } else { // says something else on wide streams
            if (mode == 'k') return std::format_to(ctx.out(), L"wk{}", r.key);
            if (mode == 'p') return std::format_to(ctx.out(), L"wp{}", r.payload);
            return std::format_to(ctx.out(), L"w<{},{}>", r.key, r.payload);
        }
    }
};
struct WideOnly { std::wstring s; };
template<> struct std::formatter<WideOnly, wchar_t> : std::formatter<std::wstring, wchar_t> {
    auto format(WideOnly const &w, auto &c) const { return std::formatter<std::wstring, wchar_t>::format(w.s, c); }
};
struct Pinned { // neither copyable nor movable
    int v;
    explicit Pinned(int x) : v{x} {}
    Pinned(Pinned const &) = delete;
};
template<> struct std::formatter<Pinned> : std::formatter<int> {
    auto format(Pinned const &p, auto &c) const { return std::formatter<int>::format(p.v, c); }
};

inline bool same(int a, int b) { return a == b; }
inline bool same(bool a, bool b) { return a == b; }
inline bool same(char a, char b) { return a == b; }
inline bool same(double a, double b) { return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b); }
inline bool same(std::string const &a, std::string const &b) { return a == b; }
template<int K> bool same(Rec<K> const &a, Rec<K> const &b) { return a == b; }
template<class T> std::string show(std::vector<T> const &v) {
    std::string s = "[";
    for (T const &x : v) s += std::format("{} ", x);
    return s + "]";
}
#include "shapes.hpp"

// ------------------------------------------------------------------------------------------------ fmt_join
template<class T> T draw(vt::Rng &r) {
    if constexpr (std::is_same_v<T, int>) return r.chance(20) ? static_cast<int>(r.u64()) : static_cast<int>(r.below(300)) - 20;
    else if constexpr (std::is_same_v<T, bool>) return r.coin();
    else if constexpr (std::is_same_v<T, char>) return static_cast<char>(33 + r.below(90));
    else if constexpr (std::is_same_v<T, double>) return r.chance(10) ? -0.0 : r.chance(10) ? std::nan("") : static_cast<double>(r.below(100000)) / 64 - 200;
    else if constexpr (std::is_same_v<T, std::string>) {
        std::string s;
        for (size_t n = r.below(r.chance(10) ? 60 : 6); s.size() < n;) s += "ab{}%, \0\\xyz"[r.below(13)];
        return s;
    } else return T{static_cast<int>(r.below(50)), static_cast<int>(r.below(50))};
}
template<class T> std::string spec(vt::Rng &r) {
    std::vector<std::string> o{"", "", ":"};
    if constexpr (std::is_same_v<T, int>) o = {"", ":", ":x", ":#x", ":5", ":<5", ":^+7d", ":05", ":b", ":#o", ":*>8", ": d"};
    else if constexpr (std::is_same_v<T, bool>) o = {"", ":d", ":s", ":>7", ":#x"};
    else if constexpr (std::is_same_v<T, char>) o = {"", ":c", ":d", ":>3", ":#x"};
    else if constexpr (std::is_same_v<T, double>) o = {"", ":.2f", ":e", ":10.3g", ":+", ":a", ":<9.1f", ":010.2f"};
    else if constexpr (std::is_same_v<T, std::string>) o = {"", ":s", ":5", ":<5", ":>4.2", ":.3", ":*^9"};
    else o = {"", ":k", ":p", ":"};
    return r.pick(o);
}
template<class T> bool bad_spec(vt::Rng &r, std::string &s) {
    if constexpr (std::is_same_v<T, int>) s = r.coin() ? ":.2f" : ":s";
    else if constexpr (std::is_same_v<T, std::string>) s = r.coin() ? ":d" : ":+";
    else if constexpr (std::is_same_v<T, Rec<0>>) s = ":q";
    else return false;
    return true;
}
template<class T> std::string expected(std::vector<T> const &v, std::string const &sp, std::string const &sep) {
    std::string out;
    bool first = true;
    for (T const &x : v) {
        if (!first) out += sep;
        first = false;
        out += std::vformat("{" + sp + "}", std::make_format_args(x));
    }
    return out;
}
static void compare(char const *what, char const *shape, std::string const &got, std::string const &want, std::string const &ctx) {
    vt::count("outputs_compared");
    if (got != want) vt::fail("fmt:join", "%s over %s printed \"%s\", expected \"%s\" | %s", what, shape, vt::json_escape(got).c_str(), vt::json_escape(want).c_str(), ctx.c_str());
}
static_assert(std::formattable<decltype(dtl::fmt_join(std::declval<std::vector<int> &>(), ", ")), char>);
static_assert(std::formattable<decltype(dtl::fmt_join(std::declval<std::vector<int> &>(), ',')), char>);
static_assert(std::formattable<decltype(dtl::fmt_join(std::declval<std::vector<int> &>(), std::string())) const, char>);
static_assert(!std::formattable<decltype(dtl::fmt_join(std::views::istream<int>(std::declval<std::istream &>()), std::string())) const, char>);
// every way to give the separator
template<bool Few, class F> void separators(vt::Rng &r, std::string const &sep, F &&f) {
    if constexpr (Few) {
        if (r.coin()) f("std::string", sep);
        else f("std::string_view", std::string_view(sep));
        return;
    } else
    switch (r.below(9)) {
        case 0: f("std::string", sep); break;
        case 1: { std::string s = sep; f("std::string lvalue", s); if (s != sep) vt::fail("fmt:separator-modified", "the separator changed"); break; }
        case 2: f("std::string rvalue", std::string(sep)); break;
        case 3: f("std::string_view", std::string_view(sep)); break;
        case 4: f("std::vector<char>", std::vector<char>(sep.begin(), sep.end())); break;
        case 5: { std::vector<char> c(sep.begin(), sep.end()); f("std::span<char const>", std::span<char const>(c)); break; }
        case 6: f("std::list<char>", std::list<char>(sep.begin(), sep.end())); break;
        case 7: {
            if (sep.find('\0') != std::string::npos) { f("std::string", sep); break; }
            std::unique_ptr<char[]> c(new char[sep.size() + 1]);
            memcpy(c.get(), sep.c_str(), sep.size() + 1);
            if (r.coin()) f("char *", c.get());
            else f("char const *", static_cast<char const *>(c.get()));
            break;
        }
        default: f("view", std::views::transform(std::views::iota(size_t{0}, sep.size()), [&sep](size_t i) { return sep[i]; }));
    }
}
// gen(): the range; forward: may be iterated again
template<bool Forward, class T, class Mk>
void join_one(vt::Rng &r, char const *shape, std::vector<T> const &v, Mk &&make, std::string const &sep) {
    std::string const sp = spec<T>(r);
    std::string const want = expected(v, sp, sep);
    std::string const ctx = vt::fmt("%zu elements %s, separator \"%s\", spec \"%s\"", v.size(), vt::json_escape(show(v)).c_str(), vt::json_escape(sep).c_str(), sp.c_str());
    separators<!std::is_same_v<T, int> && !std::is_same_v<T, Rec<0>>>(r, sep, [&](char const *kind, auto &&s) {
        std::string const f = "{" + sp + "}";
        auto j = dtl::fmt_join(make(), std::forward<decltype(s)>(s));
        int const calls = g_calls;
        compare(kind, shape, std::vformat(f, std::make_format_args(j)), want, ctx);
        if constexpr (std::is_same_v<T, Rec<0>>)
            if (g_calls - calls != static_cast<int>(v.size())) vt::fail("fmt:element-calls", "%d elements were formatted for %zu | %s", g_calls - calls, v.size(), ctx.c_str());
        if constexpr (Forward) {
            switch (r.below(7)) {
                case 0: compare(kind, shape, std::vformat(f, std::make_format_args(j)), want, ctx); break; // again
                case 1: {
                    int a = 7;
                    std::string b = "x";
                    compare("among other arguments", shape, std::vformat("{0}[{1" + sp + "}]{2}{1" + sp + "}", std::make_format_args(a, j, b)), "7[" + want + "]x" + want, ctx);
                    break;
                }
                case 2: {
                    std::ostringstream o;
                    std::vformat_to(std::ostreambuf_iterator<char>(o), f, std::make_format_args(j));
                    compare("format_to", shape, o.str(), want, ctx);
                    break;
                }
                case 3: {
                    std::list<char> o;
                    std::vformat_to(std::back_inserter(o), f, std::make_format_args(j));
                    compare("format_to list", shape, std::string(o.begin(), o.end()), want, ctx);
                    break;
                }
                case 4: {
                    if (std::formatted_size("{}", j) != expected(v, "", sep).size()) vt::fail("fmt:size", "formatted_size | %s", ctx.c_str());
                    size_t const n = r.below(want.size() + 3);
                    std::unique_ptr<char[]> buf(new char[n]);
                    auto res = std::format_to_n(buf.get(), static_cast<std::ptrdiff_t>(n), "{}", j);
                    std::string const w = expected(v, "", sep);
                    compare("format_to_n", shape, std::string(buf.get(), res.out), w.substr(0, n), ctx);
                    if (static_cast<size_t>(res.size) != w.size()) vt::fail("fmt:size", "format_to_n | %s", ctx.c_str());
                    break;
                }
                case 5: { // a copy that outlives the original, joined with another one
                    constexpr bool copies = std::is_copy_constructible_v<decltype(j)> && std::formattable<decltype(j) const, char>;
                    auto outer = [&] {
                        if constexpr (copies) {
                            std::vector<decltype(j)> js{j, j};
                            return dtl::fmt_join(std::move(js), std::string(" || "));
                        } else return std::string();
                    }();
                    if constexpr (copies) compare("join of joins", shape, std::vformat(f, std::make_format_args(outer)), want + " || " + want, ctx);
                    break;
                }
                default: {
                    auto k = std::move(j);
                    compare("moved helper", shape, std::vformat(f, std::make_format_args(k)), want, ctx);
                    if constexpr (std::formattable<decltype(k) const, char>) compare("const helper", shape, std::vformat(f, std::make_format_args(std::as_const(k))), want, ctx);
                }
            }
        }
    });
    std::string bs;
    if constexpr (Forward)
        if (r.chance(10) && bad_spec<T>(r, bs)) {
            auto j = dtl::fmt_join(make(), ", ");
            bool threw = false;
            try {
                (void) std::vformat("{" + bs + "}", std::make_format_args(j));
            } catch (std::format_error const &) {
                threw = true;
            }
            if (!threw) vt::fail("fmt:bad-spec", "specification %s was accepted | %s", bs.c_str(), ctx.c_str());
            vt::count("bad_specs_rejected");
        }
    vt::distinct(vt::hash_str(want + sp + shape));
    if (!want.empty() && vt::want_sample(shape)) vt::sample(shape, ctx + " -> " + vt::json_escape(want));
}
static std::string draw_sep(vt::Rng &r) {
    std::string s;
    for (size_t n = r.below(r.chance(10) ? 40 : 4); s.size() < n;) s += r.chance(3) ? '\0' : ", {}|-%\n"[r.below(8)];
    return s;
}
template<class T> std::vector<T> draws(vt::Rng &r) {
    std::vector<T> v;
    for (size_t n = r.chance(20) ? r.below(2) : r.below(9); v.size() < n;) v.push_back(draw<T>(r));
    return v;
}
template<class T> void join_case(vt::Rng &r) {
    auto const v = draws<T>(r);
    std::string const sep = draw_sep(r);
    vt::count(v.empty() ? "empty_ranges" : v.size() == 1 ? "one_element_ranges" : "longer_ranges");
    if constexpr (!std::is_same_v<T, bool>) {
        shapes(v, [&]<unsigned Caps>(char const *name, auto &&make) {
            join_one<(Caps & FWD) != 0>(r, name, v, make, sep);
        });
        // views that can only be iterated while non-const
        std::vector<std::pair<bool, T>> c;
        for (T const &x : v) {
            while (r.chance(30)) c.push_back({false, T{}});
            c.push_back({true, x});
        }
        join_one<true>(r, "filter", v, [&] { return c | std::views::filter([](auto const &p) { return p.first; }) | std::views::values; }, sep);
        std::list<std::pair<bool, T>> front(r.below(4));
        for (T const &x : v) front.push_back({true, x});
        join_one<true>(r, "drop_while", v, [&] { return front | std::views::drop_while([](auto const &q) { return !q.first; }) | std::views::values; }, sep);
        std::vector<std::vector<T>> parts;
        for (T const &x : v) {
            if (parts.empty() || r.coin()) parts.emplace_back();
            parts.back().push_back(x);
            if (r.chance(20)) parts.emplace_back();
        }
        join_one<true>(r, "join", v, [&] { return parts | std::views::join; }, sep);
        join_one<false>(r, "generator", v, [&]() -> std::generator<T const &> { for (T const &x : v) co_yield x; }, sep);
    } else {
        join_one<true>(r, "vector<bool>", v, [&]() -> std::vector<bool> const & { return v; }, sep);
        join_one<true>(r, "temporary vector<bool>", v, [&] { return std::vector<bool>(v); }, sep);
    }
    if (v.size() >= 3) { // initializer lists: the elements are copied
        std::string const f = "{" + spec<T>(r) + "}";
        auto j = [&] {
            T const a = v[0], b = v[1], d = v[2];
            return dtl::fmt_join({a, b, d}, '+');
        }();
        compare("char separator", "initializer list", std::vformat(f, std::make_format_args(j)), expected<T>({v[0], v[1], v[2]}, f.substr(1, f.size() - 2), "+"), show(v));
    }
    std::string const lit = expected(v, "", ", ");
    compare("literal separator", "vector", std::format("{}", dtl::fmt_join(v, ", ")), lit, show(v));
    compare("char separator", "vector", std::format("{}", dtl::fmt_join(v, 'x')), expected(v, "", "x"), show(v));
    compare("empty separator", "vector", std::format("{}", dtl::fmt_join(v, "")), expected(v, "", ""), show(v));
    if constexpr (std::is_same_v<T, int>) {
        int const w = static_cast<int>(r.below(9));
        compare("dynamic width", "vector", std::format("{:*>{}}", dtl::fmt_join(v, ", "), w), expected(v, ":*>" + std::to_string(w), ", ").substr(0), show(v));
    }
    if constexpr (std::is_same_v<T, Rec<0>> || std::is_same_v<T, int>) { // wide
        std::wstring want;
        for (size_t i = 0; i < v.size(); ++i) want += (i ? L"\x4e00 " : L"") + std::format(L"{}", v[i]);
        auto w = std::wstring(L"\x4e00 ");
        if (std::format(L"{}", dtl::fmt_join(v, w)) != want || std::format(L"{}", dtl::fmt_join(v, L"\x4e00 ")) != want || std::format(L"{}", dtl::fmt_join(v, std::wstring_view(w))) != want)
            vt::fail("fmt:wide", "wide output of %s", show(v).c_str());
        vt::count("wide_outputs");
    }
    if constexpr (std::is_same_v<T, Rec<0>>)
        if (!v.empty()) { // an exception from the k-th element reaches the caller, after the output of the ones before
            g_calls = 0;
            g_throw_at = static_cast<int>(r.below(v.size()));
            std::string out;
            bool threw = false;
            try {
                auto j = dtl::fmt_join(v, sep);
                std::vformat_to(std::back_inserter(out), "{}", std::make_format_args(j));
            } catch (Boom const &) {
                threw = true;
            }
            int const at = g_throw_at, calls = g_calls;
            g_throw_at = -1;
            if (!threw || calls != at + 1) vt::fail("fmt:exception", "the exception of element %d: %s, %d calls", at, threw ? "arrived" : "lost", calls);
            vt::count("exceptions_passed");
        }
}

// ------------------------------------------------------------------------------------------------ ostream
struct Both { int v; }; // formattable and ostreamable
template<> struct std::formatter<Both> : std::formatter<int> {
    auto format(Both const &b, auto &c) const { return std::format_to(c.out(), "format {}", b.v); }
};
inline std::ostream &operator<<(std::ostream &o, Both const &b) { return o << "ostream " << b.v; }
struct Derived : Both {}; // streamed by conversion
template<> struct std::formatter<Derived> : std::formatter<int> {
    auto format(Derived const &, auto &c) const { return std::format_to(c.out(), "wrong"); }
};
struct Implicit { // converts to an ostreamable type
    int v;
    operator Both() const { return {v}; }
};
template<> struct std::formatter<Implicit> : std::formatter<int> {
    auto format(Implicit const &, auto &c) const { return std::format_to(c.out(), "wrong"); }
};
namespace app {
struct Adl { int v; };
inline std::ostream &operator<<(std::ostream &o, Adl const &b) { return o << "adl " << b.v; }
struct Only { int v; };
enum class Color { red, green };
}
template<> struct std::formatter<app::Adl> : std::formatter<int> {
    auto format(app::Adl const &, auto &c) const { return std::format_to(c.out(), "wrong"); }
};
template<> struct std::formatter<app::Only> : std::formatter<int> {
    auto format(app::Only const &b, auto &c) const { return std::format_to(c.out(), "only {}", b.v); }
};
template<> struct std::formatter<app::Color> : std::formatter<std::string_view> {
    auto format(app::Color b, auto &c) const { return std::formatter<std::string_view>::format(b == app::Color::red ? "red" : "green", c); }
};
template<class T> concept streamable = requires(std::ostream &o, T const &t) { { o << t } -> std::same_as<std::ostream &>; };
struct Nothing {};
static_assert(streamable<Rec<0>> && streamable<Pinned> && streamable<app::Only> && !streamable<Nothing> && !streamable<WideOnly> && streamable<int> && streamable<Both>);

template<class C> struct Limited : std::basic_streambuf<C> { // takes `room` characters
    std::basic_string<C> got;
    size_t room;
    int flushed = 0;
    explicit Limited(size_t n) : room{n} {}
    typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type c) override {
        if (got.size() >= room) return std::char_traits<C>::eof();
        got += static_cast<C>(c);
        return c;
    }
    int sync() override { ++flushed; return 0; }
};
template<class C> void randomize(vt::Rng &r, std::basic_ostream<C> &o) {
    o.flags(static_cast<std::ios_base::fmtflags>(r.u64()) & (std::ios_base::boolalpha | std::ios_base::showbase | std::ios_base::showpoint | std::ios_base::showpos | std::ios_base::skipws | std::ios_base::uppercase
                                                             | std::ios_base::adjustfield | std::ios_base::basefield | std::ios_base::floatfield));
    o.precision(static_cast<int>(r.below(20)));
    o.fill(static_cast<C>('*'));
}
template<class C, class T> void stream_value(vt::Rng &r, T const &x, std::basic_string<C> const &want, char const *type) {
    {
        std::basic_ostringstream<C> o;
        randomize(r, o);
        auto const f = o.flags();
        auto const p = o.precision();
        auto &res = (o << x);
        if (o.str() != want || &res != &o || !o.good() || o.flags() != f || o.precision() != p || o.fill() != static_cast<C>('*'))
            vt::fail("fmt:ostream", "%s: wrong output or stream state (%zu characters, expected %zu)", type, o.str().size(), want.size());
        o.flags({});
        o.setf(std::ios_base::dec, std::ios_base::basefield);
        o << 17 << x << static_cast<C>('!') << x;
        if (o.str() != want + std::basic_string<C>{'1', '7'} + want + std::basic_string<C>{'!'} + want) vt::fail("fmt:ostream", "%s: wrong chained output", type);
        vt::count("values_streamed");
    }
    { // a stream that fails while writing, or has failed before
        Limited<C> buf(r.below(want.size() + 3));
        std::basic_ostream<C> o(&buf);
        o << x;
        bool const fits = want.size() <= buf.room;
        if (buf.got != want.substr(0, buf.room) || o.bad() == fits) vt::fail("fmt:ostream-failure", "%s: %zu of %zu characters fit, %zu written, bad() is %d", type, buf.room, want.size(), buf.got.size(), o.bad());
        vt::count(fits ? "writes_that_fit" : "failed_writes_reported");
        Limited<C> b2(100000);
        std::basic_ostream<C> o2(&b2);
        auto const st = r.coin() ? std::ios_base::badbit : std::ios_base::failbit;
        o2.setstate(st);
        o2 << x;
        if (!b2.got.empty() || !(o2.rdstate() & st)) vt::fail("fmt:ostream-failed-stream", "%s: output into a failed stream", type);
        o2.clear();
        o2.exceptions(std::ios_base::badbit);
        b2.room = r.below(want.size() + 1);
        bool threw = false;
        try {
            o2 << x;
        } catch (std::ios_base::failure const &) {
            threw = true;
        }
        if (threw != (b2.room < want.size())) vt::fail("fmt:ostream-exceptions", "%s: a failed write %s", type, threw ? "threw without need" : "was not thrown");
    }
    { // the tied stream is flushed first, a null buffer is an error but no crash
        Limited<C> b1(100000), b2(100000);
        std::basic_ostream<C> tied(&b1), o(&b2);
        o.tie(&tied);
        o << x;
        if (!b1.flushed) vt::fail("fmt:ostream-tie", "%s: the tied stream was not flushed", type);
        std::basic_ostream<C> none(nullptr);
        none << x;
        if (!none.bad()) vt::fail("fmt:ostream-null", "%s: no error without a buffer", type);
    }
}
[[maybe_unused]] static void ostream_case(vt::Rng &r) {
    Rec<0> const rec{static_cast<int>(r.below(1000)), static_cast<int>(r.below(1000))};
    stream_value<char>(r, rec, std::format("{}", rec), "Rec");
    stream_value<wchar_t>(r, rec, std::format(L"{}", rec), "Rec (wide)");
    Pinned const pin(static_cast<int>(r.u64()));
    stream_value<char>(r, pin, std::format("{}", pin), "Pinned");
    app::Only const only{static_cast<int>(r.below(100))};
    stream_value<char>(r, only, std::format("{}", only), "app::Only");
    app::Color const col = r.coin() ? app::Color::red : app::Color::green;
    stream_value<char>(r, col, std::format("{}", col), "app::Color");
    WideOnly const w{std::wstring(r.below(40), L'\x4e00') + L"{}"};
    stream_value<wchar_t>(r, w, w.s, "WideOnly");
    auto const v = draws<std::string>(r);
    std::string const sep = draw_sep(r);
    auto const j = dtl::fmt_join(v, sep);
    stream_value<char>(r, j, std::format("{}", j), "fmt_join");
    auto const jl = dtl::fmt_join(v, " - ");
    stream_value<char>(r, jl, std::format("{}", jl), "fmt_join with a literal");
    // existing operators are used
    int const n = static_cast<int>(r.below(100));
    std::ostringstream o;
    o << Both{n} << app::Adl{n} << n << "str" << std::string("s") << 'c' << 1.5 << std::hex << 255 << std::boolalpha << true << std::complex<double>{1, 2} << Derived{{n}} << Implicit{n};
    if (o.str() != vt::fmt("ostream %dadl %d%dstrsc1.5fftrue(1,2)ostream %xostream %x", n, n, n, n, n)) vt::fail("fmt:ostream-override", "existing operators: %s", o.str().c_str());
    vt::distinct(vt::hash_str(std::format("{}{}{}{}", rec, pin.v, only, n) + std::format("{}", j)));
}

// ------------------------------------------------------------------------------------------------ DICE_DBG
struct Tracked { // counts copies and moves
    int v;
    inline static int copies = 0, moves = 0;
    explicit Tracked(int x) : v{x} {}
    Tracked(Tracked const &o) : v{o.v} { ++copies; }
    Tracked(Tracked &&o) noexcept : v{o.v} { o.v = -1, ++moves; }
    int member(int add) { return DICE_DBG(this->v + add); }
    int scaled() const & { return DICE_DBG(v) * 2; }
};
template<> struct std::formatter<Tracked> : std::formatter<int> {
    auto format(Tracked const &p, auto &c) const { return std::format_to(c.out(), "T{}", p.v); }
};
static int g_evals;
static int eval(int x) { return ++g_evals, x; }
static int boom(int) { throw Boom{}; }
template<class T> static T twice(T const &x) { return DICE_DBG(x + x); }
static void expect_dbg(std::string const &got, std::string const &want) {
    vt::count("debug_lines");
    if (got != want) vt::fail("fmt:dbg", "printed \"%s\", expected \"%s\"", vt::json_escape(got).c_str(), vt::json_escape(want).c_str());
}
[[maybe_unused]] static void dbg_case(vt::Rng &r) {
    std::ostringstream err;
    auto *const old = std::cerr.rdbuf(err.rdbuf());
    struct Restore { std::streambuf *b; ~Restore() { std::cerr.rdbuf(b); } } restore{old};
    auto const flags = std::cerr.flags();
    if (r.coin()) std::cerr << std::hex << std::showbase;
    auto const flags2 = std::cerr.flags();
    auto out = [&] { auto s = err.str(); err.str(""); return s; };
    auto line = [](int l, std::string const &e, std::string const &v) { return vt::fmt("[fmt.cpp:%d] %s = %s\n", l, e.c_str(), v.c_str()); };
    int const n = static_cast<int>(r.below(1000)) - 100;
    int x = n, l;

    l = __LINE__; int &ref = DICE_DBG(x);
    if (&ref != &x) vt::fail("fmt:dbg-identity", "lvalue");
    expect_dbg(out(), line(l, "x", std::to_string(n)));
    l = __LINE__; int const y = DICE_DBG(x * 2 + 1) + 1;
    if (y != 2 * n + 2) vt::fail("fmt:dbg-value", "expression gave %d", y);
    expect_dbg(out(), line(l, "x * 2 + 1", std::to_string(2 * n + 1)));
    DICE_DBG(x) = n + 5;
    if (x != n + 5) vt::fail("fmt:dbg-identity", "assignment through the result");
    (void) out();
    l = __LINE__; if (x) DICE_DBG(x += 2); else DICE_DBG(x -= 7);
    expect_dbg(out(), line(l, x == n + 5 - 7 ? "x -= 7" : "x += 2", std::to_string(x)));
    g_evals = 0;
    l = __LINE__; int const z = DICE_DBG(eval(n));
    if (g_evals != 1 || z != n) vt::fail("fmt:dbg-evaluations", "evaluated %d times", g_evals);
    expect_dbg(out(), line(l, "eval(n)", std::to_string(n)));
    g_evals = 0;
    l = __LINE__; int const nest = DICE_DBG(DICE_DBG(eval(n)) + eval(1));
    if (g_evals != 2 || nest != n + 1) vt::fail("fmt:dbg-evaluations", "evaluated %d times", g_evals);
    expect_dbg(out(), line(l, "eval(n)", std::to_string(n)) + line(l, "DICE_DBG(eval(n)) + eval(1)", std::to_string(n + 1)));
    // text that must not be taken for a format or escape
    l = __LINE__; std::string const s = DICE_DBG(std::string("{}%d\\n\"") + '}' + std::to_string(n));
    expect_dbg(out(), line(l, "std::string(\"{}%d\\\\n\\\"\") + '}' + std::to_string(n)", "{}%d\\n\"}" + std::to_string(n)));
    l = __LINE__; int const lam = DICE_DBG([&] { int val = n; return val + x; }());
    if (lam != n + x) vt::fail("fmt:dbg-value", "lambda gave %d", lam);
    expect_dbg(out(), line(l, "[&] { int val = n; return val + x; }()", std::to_string(n + x)));
    int val = n;
    l = __LINE__; val = DICE_DBG(val) + DICE_DBG(val);
    expect_dbg(out(), line(l, "val", std::to_string(n)) + line(l, "val", std::to_string(n)));
    // no copies, categories and constness are kept
    Tracked::copies = Tracked::moves = 0;
    Tracked t(n);
    Tracked const ct(n);
    static_assert(std::is_same_v<decltype(DICE_DBG(t)), Tracked &>);
    static_assert(std::is_same_v<decltype(DICE_DBG(ct)), Tracked const &>);
    static_assert(std::is_same_v<decltype(DICE_DBG(std::move(t))), Tracked &&>);
    static_assert(std::is_same_v<decltype(DICE_DBG(std::move(ct))), Tracked const &&>);
    static_assert(std::is_same_v<decltype(DICE_DBG(Tracked(1))), Tracked &&>);
    l = __LINE__; Tracked &t2 = DICE_DBG(t); Tracked const &ct2 = DICE_DBG(ct); Tracked &&t3 = DICE_DBG(std::move(t));
    if (&t2 != &t || &ct2 != &ct || &t3 != &t || Tracked::copies || Tracked::moves || t.v != n) vt::fail("fmt:dbg-identity", "%d copies, %d moves", Tracked::copies, Tracked::moves);
    expect_dbg(out(), line(l, "t", "T" + std::to_string(n)) + line(l, "ct", "T" + std::to_string(n)) + line(l, "std::move(t)", "T" + std::to_string(n)));
    Tracked const t4 = DICE_DBG(std::move(t));
    if (Tracked::copies || Tracked::moves != 1 || t4.v != n || t.v != -1) vt::fail("fmt:dbg-identity", "moving out: %d copies, %d moves", Tracked::copies, Tracked::moves);
    (void) out();
    Pinned pinned(n);
    if (&DICE_DBG(pinned) != &pinned) vt::fail("fmt:dbg-identity", "pinned");
    (void) out();
    auto p = std::make_unique<int>(n);
    int const *const raw = p.get();
    l = __LINE__; void const *const rv = DICE_DBG(static_cast<void const *>(raw));
    expect_dbg(out(), line(l, "static_cast<void const *>(raw)", std::format("{}", rv)));
    l = __LINE__; bool const b = DICE_DBG((std::is_same_v<int, long>) || n > 50);
    expect_dbg(out(), line(l, "(std::is_same_v<int, long>) || n > 50", b ? "true" : "false"));
    l = __LINE__; double const d = DICE_DBG(n / 8.0);
    expect_dbg(out(), line(l, "n / 8.0", std::format("{}", d)));
    l = __LINE__; auto const j = DICE_DBG(std::format("{}", dtl::fmt_join(s, '.'))).size();
    expect_dbg(out(), line(l, "std::format(\"{}\", dtl::fmt_join(s, '.'))", std::format("{}", dtl::fmt_join(s, '.'))));
    if (j != s.size() * 2 - 1) vt::fail("fmt:dbg-value", "size %zu", j);
    // an expression that throws prints nothing
    bool threw = false;
    try {
        (void) DICE_DBG(boom(n));
    } catch (Boom const &) {
        threw = true;
    }
    if (!threw) vt::fail("fmt:dbg-exception", "lost");
    expect_dbg(out(), "");
    for (int i = 0; i < 2; ++i) (void) DICE_DBG(i);
    if (std::string const o = out(); std::count(o.begin(), o.end(), '\n') != 2 || o.find("] i = 1\n") == std::string::npos) vt::fail("fmt:dbg", "in a loop: %s", o.c_str());
    Tracked m(n);
    if (m.member(3) != n + 3 || m.scaled() != 2 * n || twice(n) != 2 * n || twice(std::string("a")) != "aa") vt::fail("fmt:dbg-value", "in members and templates");
    (void) out();
    if (std::cerr.flags() != flags2 || !std::cerr.good()) vt::fail("fmt:dbg-stream", "the state of std::cerr changed");
    std::cerr.flags(flags);
    vt::distinct(static_cast<uint64_t>(n) * 77);
}

static void vt_main() {
#if PART == 0
    vt::run("join-int", 300, [](vt::Rng &r, uint64_t) { join_case<int>(r); });
#elif PART == 1
    vt::run("join-custom", 300, [](vt::Rng &r, uint64_t) { join_case<Rec<0>>(r); });
#elif PART == 2
    vt::run("join-string", 300, [](vt::Rng &r, uint64_t) { join_case<std::string>(r); });
    vt::run("join-bool", 150, [](vt::Rng &r, uint64_t) { join_case<bool>(r); });
#elif PART == 3
    vt::run("join-double", 200, [](vt::Rng &r, uint64_t) { join_case<double>(r); });
    vt::run("join-char", 200, [](vt::Rng &r, uint64_t) { join_case<char>(r); });
#else
    vt::run("ostream", 300, [](vt::Rng &r, uint64_t) { ostream_case(r); });
    vt::run("dbg", 200, [](vt::Rng &r, uint64_t) { dbg_case(r); });
#endif
}
VT_MAIN
