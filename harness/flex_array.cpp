// C10: flex_array in all four modes against a std::vector model: random histories, all iterator categories, sizes around the limits.
#include "ledger.hpp"
#include <cmath>
#include <dice/template-library/flex_array.hpp>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <optional>
#include <string>

namespace dtl = dice::template_library;
using ledger::Boom;
using ledger::Obj;

template<class T> struct Val {
    static T make(vt::Rng &r) { return static_cast<T>(r.below(4)); }
    static int get(T const &t) { return static_cast<int>(t); }
};
template<> struct Val<std::string> {
    static std::string make(vt::Rng &r) { return r.below(3) == 0 ? std::string() : std::string(r.below(40), static_cast<char>('a' + r.below(3))); }
    static int get(std::string const &t) { return static_cast<int>(t.size()) * 300 + (t.empty() ? 0 : t[0]); }
};
template<int K, unsigned F> struct Val<Obj<K, F>> {
    static Obj<K, F> make(vt::Rng &r) { return Obj<K, F>(static_cast<int>(r.below(4))); }
    static int get(Obj<K, F> const &t) { return t.get(); }
};
struct EqOnly { // no ordering at all
    int v = 0;
    bool operator==(EqOnly const &) const = default;
};
template<> struct Val<EqOnly> {
    static EqOnly make(vt::Rng &r) { return {static_cast<int>(r.below(3))}; }
    static int get(EqOnly const &t) { return t.v; }
};
template<> struct Val<double> {
    static double make(vt::Rng &r) {
        double c[] = {0.0, -0.0, 1.0, std::nan(""), 2.0};
        return c[r.below(5)];
    }
    static int get(double d) { return std::isnan(d) ? -9 : static_cast<int>(d * 10) + (std::signbit(d) ? -1 : 0); }
};

// single-pass iterator over a vector; using it in a way only a forward iterator allows is noticed
template<class T>
struct Single {
    struct Src {
        std::vector<T> const *v;
        size_t pos = 0;
    };
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    Src *s = nullptr;
    size_t at = 0;
    T const &operator*() const {
        if (at != s->pos) vt::fail("single-pass", "an input iterator was read after another copy of it had been advanced");
        return (*s->v).at(s->pos);
    }
    Single &operator++() {
        if (at != s->pos) vt::fail("single-pass", "an outdated input iterator was advanced");
        ++s->pos;
        ++at;
        return *this;
    }
    struct Proxy {
        T v;
        T operator*() const { return v; }
    };
    Proxy operator++(int) {
        Proxy p{**this};
        ++*this;
        return p;
    }
    friend bool operator==(Single const &a, std::default_sentinel_t) { return a.at >= a.s->v->size(); }
};

template<class T> std::vector<int> vals(auto const &c) {
    std::vector<int> o;
    for (auto const &x : c) o.push_back(Val<T>::get(x));
    return o;
}
static std::string show(std::vector<int> const &v) {
    std::string s = "[";
    for (int x : v) s += std::to_string(x) + " ";
    return s + "]";
}

template<class T, size_t E, size_t MX>
struct Prog {
    using F = dtl::flex_array<T, E, MX>;
    static constexpr bool fixed_max = MX != dtl::dynamic_extent, dyn = E == dtl::dynamic_extent || !fixed_max;
    static constexpr size_t cap = fixed_max ? MX : 12;
    static constexpr int N = 3;
    std::unique_ptr<F> s[N]; // each in its own heap block: writing past the elements leaves the block
    std::vector<T> ref[N];
    size_t known[N] = {};    // elements [0, known) are determined (grown or short-filled arrays may have indeterminate ones)
    std::string log;
    vt::Rng &r;
    explicit Prog(vt::Rng &rr) : r(rr) {}
    void bad(char const *key, std::string m) { vt::fail_s(key, m + " | " + log); }

    void check(int k) {
        F &x = *s[k];
        F const &c = x;
        auto &f = ref[k];
        size_t n = f.size(), kn = known[k];
        if (c.size() != n || c.empty() != (n == 0)) return bad("size", vt::fmt("size %zu, expected %zu", c.size(), n));
        if (fixed_max && (F::max_size() != MX || n > MX)) bad("max_size", "max_size");
        if (c.end() - c.begin() != static_cast<std::ptrdiff_t>(n) || x.end() - x.begin() != static_cast<std::ptrdiff_t>(n) || c.cend() - c.cbegin() != static_cast<std::ptrdiff_t>(n) || c.rend() - c.rbegin() != static_cast<std::ptrdiff_t>(n)
            || x.rend() - x.rbegin() != static_cast<std::ptrdiff_t>(n) || c.crend() - c.crbegin() != static_cast<std::ptrdiff_t>(n))
            return bad("extent", "distance of the iterators");
        if (x.data() != x.begin() || c.data() != x.data() || c.begin() != c.cbegin()) bad("data", "data/begin differ");
        size_t i = 0;
        bool ok = true;
        for (auto const &e : c) {
            if (i < kn && Val<T>::get(e) != Val<T>::get(f[i])) ok = false;
            ++i;
        }
        if (i != n) ok = false;
        for (i = 0; i < kn; ++i)
            if (Val<T>::get(c[i]) != Val<T>::get(f[i]) || &x[i] != x.data() + i || &c[i] != c.data() + i) ok = false;
        if (!ok) {
            std::vector<int> have;
            for (i = 0; i < kn; ++i) have.push_back(Val<T>::get(c[i]));
            bad("content", show(have) + " expected " + show(vals<T>(f)));
        }
        if (n) {
            auto a = x.rbegin();
            auto b = c.rbegin();
            auto d = c.crbegin();
            for (i = n; i-- > 0; ++a, ++b, ++d)
                if (&*a != &x[i] || &*b != &c[i] || &*d != &c[i]) bad("reverse", "reverse iteration");
            if (a != x.rend() || b != c.rend() || d != c.crend()) bad("reverse", "reverse end");
        }
        std::span<T, dyn ? std::dynamic_extent : E> sp = x;
        std::span<T const, dyn ? std::dynamic_extent : E> csp = c;
        if (sp.size() != n || csp.size() != n || (n && (sp.data() != x.data() || csp.data() != x.data()))) bad("span", "span conversion");
        // storage within the object in the modes that promise it
        if constexpr (fixed_max) {
            auto lo = reinterpret_cast<unsigned char *>(&x);
            auto p = reinterpret_cast<unsigned char *>(x.data());
            if (n && (p < lo || p + n * sizeof(T) > lo + sizeof(F))) bad("storage", "elements outside of the object");
        }
    }
    void compare(int a, int b) {
        if (known[a] < ref[a].size() || known[b] < ref[b].size()) return;
        F const &x = *s[a], &y = *s[b];
        if ((x == y) != (ref[a] == ref[b]) || (x != y) != (ref[a] != ref[b])) bad("equality", show(vals<T>(ref[a])) + " == " + show(vals<T>(ref[b])));
        if constexpr (std::three_way_comparable<T>) {
            auto o = ref[a] <=> ref[b];
            if ((x <=> y) != o || (x < y) != (o < 0) || (x <= y) != (o <= 0) || (x > y) != (o > 0) || (x >= y) != (o >= 0)) bad("ordering", show(vals<T>(ref[a])) + " <=> " + show(vals<T>(ref[b])));
        }
        vt::count("comparisons");
    }
    size_t some_size() {
        switch (r.below(6)) {
            case 0: return 0;
            case 1: return cap;
            case 2: return cap + 1 + r.below(3);
            case 3: return cap ? cap - 1 : 0;
            default: return r.below(cap + 2);
        }
    }
    std::vector<T> some(size_t n) {
        std::vector<T> v;
        v.reserve(n);
        while (v.size() < n) v.push_back(Val<T>::make(r));
        return v;
    }
    template<class It, class Se> void from_range(int k, It a, Se b, std::vector<T> const &src, char const *cat) {
        bool too_long = fixed_max && src.size() > MX;
        log += vt::fmt("%s(%d,%zu) ", cat, k, src.size());
        try {
            auto p = std::make_unique<F>(a, b);
            if (too_long) return bad("no-length-error", vt::fmt("%s range of %zu accepted, maximum %zu", cat, src.size(), MX));
            s[k] = std::move(p);
            ref[k] = src;
            known[k] = src.size();
            if (!dyn && src.size() < E) ref[k].resize(E); // shorter than a fixed extent: only the given elements are determined
        } catch (std::length_error const &) {
            if (!too_long && (dyn || src.size() == E)) bad("length-error", vt::fmt("%s range of %zu rejected", cat, src.size()));
            vt::count("rejected");
        }
    }
    template<size_t... I> void from_list(int k, std::vector<T> const &v, std::index_sequence<I...>) {
        bool fits = dyn ? (!fixed_max || v.size() <= MX) : v.size() == E;
        log += vt::fmt("list(%d,%zu) ", k, v.size());
        auto go = [&](std::initializer_list<T> l) {
            try {
                auto p = std::make_unique<F>(l);
                if (!fits) return bad("no-length-error", vt::fmt("list of %zu accepted", l.size()));
                s[k] = std::move(p);
                ref[k] = v;
                known[k] = v.size();
            } catch (std::length_error const &) {
                if (fits) bad("length-error", vt::fmt("list of %zu rejected", l.size()));
                vt::count("rejected");
            }
        };
        switch (v.size()) {
            case 0: go({}); break;
            case 1: go({v[0]}); break;
            case 2: go({v[0], v[1]}); break;
            case 3: go({v[0], v[1], v[2]}); break;
            case 4: go({v[0], v[1], v[2], v[3]}); break;
            case 5: go({v[0], v[1], v[2], v[3], v[4]}); break;
            default: break;
        }
    }
    void step() {
        int k = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
        switch (r.below(13)) {
            case 0: {
                log += vt::fmt("default(%d) ", k);
                s[k] = std::make_unique<F>();
                ref[k].clear();
                known[k] = 0;
                if (!dyn) ref[k].resize(E);
                break;
            }
            case 1: { auto v = some(some_size()); from_range(k, v.begin(), v.end(), v, "random-access"); break; }
            case 2: { auto v = some(some_size()); from_range(k, std::as_const(v).data(), std::as_const(v).data() + v.size(), v, "pointer"); break; }
            case 3: { auto v = some(some_size()); std::list<T> l(v.begin(), v.end()); from_range(k, l.begin(), l.end(), v, "bidirectional"); break; }
            case 4: { auto v = some(some_size()); std::forward_list<T> l(v.begin(), v.end()); from_range(k, l.begin(), l.end(), v, "forward"); break; }
            case 5: {
                auto v = some(some_size());
                typename Single<T>::Src src{&v};
                from_range(k, Single<T>{&src, 0}, std::default_sentinel, v, "input");
                break;
            }
            case 6: {
                auto v = some(some_size());
                from_range(k, std::counted_iterator(v.begin(), static_cast<std::ptrdiff_t>(v.size())), std::default_sentinel, v, "counted");
                break;
            }
            case 7: from_list(k, some(r.below(6)), {}); break;
            case 8:
                if (!s[j] || known[j] < ref[j].size()) break; // do not copy indeterminate values
                if (j == k && r.coin()) break;
                log += vt::fmt("%s(%d<-%d) ", "copy", k, j);
                if (r.coin() || !s[k]) {
                    auto p = std::make_unique<F>(std::as_const(*s[j]));
                    s[k] = std::move(p);
                } else *s[k] = std::as_const(*s[j]);
                if (j != k) {
                    ref[k] = ref[j];
                    known[k] = known[j];
                }
                break;
            case 9:
                if (!s[j] || j == k || known[j] < ref[j].size()) break;
                log += vt::fmt("move(%d<-%d) ", k, j);
                if (r.coin() || !s[k]) s[k] = std::make_unique<F>(std::move(*s[j]));
                else *s[k] = std::move(*s[j]);
                ref[k] = ref[j];
                known[k] = known[j];
                s[j].reset();
                break;
            case 10:
                if (!s[j] || !s[k] || known[j] < ref[j].size() || known[k] < ref[k].size()) break;
                log += vt::fmt("swap(%d,%d) ", k, j);
                {
                    using std::swap;
                    swap(*s[k], *s[j]);
                }
                if (j != k) {
                    std::swap(ref[k], ref[j]);
                    std::swap(known[k], known[j]);
                }
                break;
            case 11:
                if (!s[k]) break;
                if constexpr (dyn) {
                    size_t n = some_size();
                    log += vt::fmt("resize(%d,%zu) ", k, n);
                    try {
                        s[k]->resize(n);
                        if (fixed_max && n > MX) bad("no-invalid-argument", vt::fmt("resize(%zu) accepted", n));
                        size_t kn = std::min(known[k], n);
                        ref[k].resize(n);
                        known[k] = kn;
                        // give the new elements determined values
                        for (size_t i = kn; i < n; ++i) {
                            ref[k][i] = Val<T>::make(r);
                            (*s[k])[i] = ref[k][i];
                        }
                        known[k] = n;
                    } catch (std::invalid_argument const &) {
                        if (!(fixed_max && n > MX)) bad("invalid-argument", vt::fmt("resize(%zu) rejected", n));
                        vt::count("rejected");
                    }
                }
                break;
            default:
                if (!s[k] || ref[k].empty()) break;
                for (int q = 0; q < 2; ++q) {
                    size_t i = r.below(ref[k].size());
                    T v = Val<T>::make(r);
                    log += vt::fmt("set(%d,%zu) ", k, i);
                    switch (r.below(4)) {
                        case 0: (*s[k])[i] = v; break;
                        case 1: s[k]->begin()[i] = v; break;
                        case 2: s[k]->rbegin()[static_cast<std::ptrdiff_t>(ref[k].size() - 1 - i)] = v; break;
                        default: { std::span<T, dyn ? std::dynamic_extent : E> sp = *s[k]; sp[i] = v; }
                    }
                    if (i < known[k]) ref[k][i] = v;
                    else if (i == known[k]) ref[k][i] = v, ++known[k];
                }
        }
    }
    void run() {
        unsigned n = 3 + static_cast<unsigned>(r.below(20));
        for (unsigned i = 0; i < n; ++i) {
            step();
            uint64_t h = 0;
            for (int k = 0; k < N; ++k)
                if (s[k]) {
                    check(k);
                    h = vt::mix(h, ref[k].size() * 16 + known[k]);
                }
            int a = static_cast<int>(r.below(N)), b = static_cast<int>(r.below(N));
            if (s[a] && s[b]) compare(a, b);
            vt::count("operations");
            vt::distinct(vt::mix(h, vt::hash_str(log)));
            if (vt::st().failures) break;
        }
        if (vt::want_sample(vt::st().cur_suite)) vt::sample(vt::st().cur_suite, log);
    }
};

template<class T, size_t E, size_t MX = E>
void suite(char const *name, uint64_t n) {
    vt::run(name, n, [](vt::Rng &r, uint64_t) {
        ledger::reset();
        { Prog<T, E, MX>(r).run(); }
        ledger::expect_live(0, "end");
    });
}

// conversions between extents
template<class T, size_t E, class Dyn>
void conversions(vt::Rng &r, char const *name) {
    using Fix = dtl::flex_array<T, E>;
    std::vector<T> v;
    size_t n = r.chance(50) ? E : r.below(E + 3);
    if (Dyn::has_max_extent) n = std::min(n, size_t(Dyn::max_size()));
    for (size_t i = 0; i < n; ++i) v.push_back(Val<T>::make(r));
    auto d = std::make_unique<Dyn>(v.begin(), v.end());
    try {
        auto f = std::make_unique<Fix>(*d);
        if (n != E) vt::fail("no-length-error", "%s: %zu elements converted to extent %zu", name, n, E);
        else if (vals<T>(*f) != vals<T>(v)) vt::fail("convert", "%s to fixed", name);
        if (f->size() != E) vt::fail("convert", "size");
    } catch (std::length_error const &) {
        if (n == E) vt::fail("length-error", "%s: %zu elements rejected for extent %zu", name, n, E);
        vt::count("rejected");
    }
    auto f = std::make_unique<Fix>();
    std::vector<T> w;
    for (size_t i = 0; i < E; ++i) w.push_back((*f)[i] = Val<T>::make(r));
    auto back = std::make_unique<Dyn>(*f);
    if (vals<T>(*back) != vals<T>(w) || back->size() != E) vt::fail("convert", "fixed to %s", name);
    Dyn implicit = *f;
    if (vals<T>(implicit) != vals<T>(w)) vt::fail("convert", "implicit fixed to %s", name);
    vt::count("conversions");
    vt::distinct(vt::mix(vt::hash_str(name), vt::mix(n, E)));
}

// exceptions of the elements must reach the caller (not terminate)
template<size_t E, size_t MX>
void exceptions(vt::Rng &r, char const *name) {
    using T = Obj<1, ledger::throwing_copy | ledger::throwing_move>;
    using F = dtl::flex_array<T, E, MX>;
    ledger::reset();
    {
        std::vector<T> v;
        v.reserve(4);
        for (int i = 0; i < 4; ++i) v.emplace_back(i);
        F a(v.begin(), v.end()), b(v.begin(), v.end());
        auto injected = [&](auto &&f) {
            ledger::arm(static_cast<long>(r.below(4)));
            try {
                f();
            } catch (Boom const &) {
                vt::count("exceptions_from_elements");
            }
            ledger::disarm();
        };
        injected([&] { F c(a); });
        injected([&] { b = a; });
        injected([&] { F c(std::move(a)); });
        injected([&] { F c(v.begin(), v.end()); });
        injected([&] { a = std::move(b); });
        injected([&] { using std::swap; swap(a, b); });
        F d(v.begin(), v.end());
        if (vals<T>(d) != vals<T>(v)) vt::fail("content", "%s", name);
    }
    ledger::expect_live(0, name);
    vt::distinct(vt::mix(vt::hash_str(name), r.u64()));
}

static void vt_main() {
    using namespace dtl;
    constexpr auto D = dynamic_extent;
    static_assert(flex_array<int, 3>::mode == flex_array_mode::direct_static_size && flex_array<int, D, 3>::mode == flex_array_mode::direct_dynamic_limited_size
                  && flex_array<int, 3, D>::mode == flex_array_mode::sbo_dynamic_size && flex_array<int, D>::mode == flex_array_mode::dynamic_size);
#if !defined(PART) || PART == 0
    suite<int, 4>("static-int", 800);
    suite<int, D, 4>("limited-int", 1200);
    suite<int, 4, D>("sbo-int", 800);
    suite<int, D>("dynamic-int", 800);
    suite<int, 1>("static-1", 300);
    suite<int, D, 1>("limited-1", 300);
    suite<std::string, D, 5>("limited-string", 800);
    suite<std::string, 5>("static-string", 600);
#endif
#if !defined(PART) || PART == 1
    suite<std::string, D>("dynamic-string", 500);
    suite<std::string, 3, D>("sbo-string", 500);
    suite<Obj<1, 0>, D, 5>("limited-obj", 800);
    suite<Obj<1, 0>, 3>("static-obj", 500);
    suite<Obj<1, 0>, D>("dynamic-obj", 500);
    suite<EqOnly, D, 4>("limited-eqonly", 400);
    suite<double, D, 4>("limited-double", 500);
    suite<double, 3>("static-double", 400);
    suite<unsigned char, D, 300>("limited-uchar", 150);
    vt::run("conversions", 400, [](vt::Rng &r, uint64_t) {
        conversions<int, 4, flex_array<int, D>>(r, "dynamic");
        conversions<int, 4, flex_array<int, D, 4>>(r, "limited4");
        conversions<int, 4, flex_array<int, D, 9>>(r, "limited9");
        conversions<int, 4, flex_array<int, 2, D>>(r, "sbo");
        conversions<std::string, 3, flex_array<std::string, D, 4>>(r, "limited-string");
        conversions<std::string, 3, flex_array<std::string, D>>(r, "dynamic-string");
    });
    vt::run("element-exceptions", 400, [](vt::Rng &r, uint64_t) {
        exceptions<4, 4>(r, "static");
        exceptions<D, 6>(r, "limited");
        exceptions<D, D>(r, "dynamic");
        exceptions<2, D>(r, "sbo");
    });
#endif
}
VT_MAIN
