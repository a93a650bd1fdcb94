// C09: random histories of basic_static_string objects against std::basic_string + allocator-identity model, monitored allocators, failing allocations.
#include "mon_alloc.hpp"
#include <dice/template-library/static_string.hpp>
#include <sstream>
#include <string>

namespace dtl = dice::template_library;

struct CiTraits : std::char_traits<char> { // case-insensitive: comparisons must go through the traits
    using comparison_category = std::weak_ordering;
    static char low(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
    static bool eq(char a, char b) { return low(a) == low(b); }
    static bool lt(char a, char b) { return low(a) < low(b); }
    static int compare(char const *a, char const *b, size_t n) {
        for (size_t i = 0; i < n; ++i) {
            if (lt(a[i], b[i])) return -1;
            if (lt(b[i], a[i])) return 1;
        }
        return 0;
    }
};

template<class Ch>
Ch random_char(vt::Rng &r) {
    switch (r.below(6)) {
        case 0: return Ch(0);
        case 1: return static_cast<Ch>(r.u64());
        case 2: return static_cast<Ch>('A' + r.below(4));
        case 3: return static_cast<Ch>(~Ch(0));
        default: return static_cast<Ch>('a' + r.below(4));
    }
}

template<class Ch, class Tr, class Al>
struct Prog {
    using S = dtl::basic_static_string<Ch, Tr, Al>;
    using Ref = std::basic_string<Ch, Tr>;
    using AT = std::allocator_traits<Al>;
    static constexpr bool monitored = requires(Al a) { a.id; };
    static constexpr int N = 4;
    struct Slot {
        alignas(S) unsigned char mem[sizeof(S)];
        bool alive = false, known = true; // known: content is determined (not moved-from)
        Ref ref;
        int id = 0; // identity of the allocator it must use
    } s[N];
    std::string log;
    vt::Rng &r;
    explicit Prog(vt::Rng &rr) : r(rr) {}
    S &at(int k) { return *std::launder(reinterpret_cast<S *>(s[k].mem)); }
    void bad(char const *key, std::string m) { vt::fail_s(key, m + " | " + log); }
    static Al mk(int id) {
        if constexpr (monitored) return Al(id);
        else return (void) id, Al();
    }
    Ref random_ref() {
        int k = static_cast<int>(r.below(N));
        if (s[k].alive && r.chance(50)) { // a relative of an existing string: equal, one character apart, a prefix, an extension
            Ref x = s[k].ref;
            size_t i = x.empty() ? 0 : r.chance(30) ? x.size() - 1 : r.below(x.size());
            switch (r.below(6)) {
                case 0: x.push_back(random_char<Ch>(r)); break;
                case 1: x.resize(i); break;
                case 2: if (!x.empty()) x[i] = random_char<Ch>(r); break;
                case 3: if (!x.empty()) x[i] = static_cast<Ch>(x[i] ^ 32); break; // the other case
                case 4: for (auto &c : x) c = static_cast<Ch>(r.coin() ? c ^ 32 : c); break;
                default: break;
            }
            return x;
        }
        size_t n = r.chance(20) ? 0 : r.chance(15) ? 1000 + r.below(3000) : r.below(24);
        Ref x;
        for (size_t i = 0; i < n; ++i) x.push_back(random_char<Ch>(r));
        return x;
    }
    void kill(int k) {
        if (s[k].alive) at(k).~S();
        s[k].alive = false;
        vt::scrub(s[k].mem, sizeof s[k].mem);
    }
    static Ref read(S const &x) { return Ref(x.begin(), x.end()); }
    static bool same(Ref const &a, Ref const &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
    void check(int k) {
        S &x = at(k);
        S const &c = x;
        Ref const &f = s[k].ref;
        if (c.size() != f.size() || c.empty() != f.empty()) return bad("size", vt::fmt("string %d has size %zu, expected %zu", k, c.size(), f.size()));
        size_t n = f.size();
        if (!same(read(c), f) || !same(Ref(x.begin(), x.end()), f) || !same(Ref(c.cbegin(), c.cend()), f)) return bad("content", vt::fmt("string %d of %zu characters", k, n));
        Ref rev(f.rbegin(), f.rend());
        if (!same(Ref(c.rbegin(), c.rend()), rev) || !same(Ref(c.crbegin(), c.crend()), rev) || !same(Ref(x.rbegin(), x.rend()), rev)) bad("reverse", "reverse iteration");
        std::basic_string_view<Ch, Tr> v = c;
        if (v.size() != n || v.data() != std::to_address(c.data()) || std::to_address(x.data()) != std::to_address(c.data()) || static_cast<Ch const *>(c.begin()) != v.data()) bad("view", "view conversion");
        for (int q = 0; q < 3 && n; ++q) {
            size_t i = r.below(n);
            if (c[i] != f[i] || x[i] != f[i] || &x[i] != x.begin() + i) bad("index", vt::fmt("[%zu]", i));
        }
        if (n && (c.front() != f.front() || c.back() != f.back() || x.front() != f.front() || x.back() != f.back() || &x.front() != x.begin() || &x.back() != x.end() - 1)) bad("ends", "front/back");
        if constexpr (std::is_same_v<Ch, char> || std::is_same_v<Ch, wchar_t>) {
            std::basic_ostringstream<Ch, Tr> a, b;
            int w = static_cast<int>(r.below(30));
            a.width(w);
            b.width(w);
            if (r.coin()) a.setf(std::ios::left), b.setf(std::ios::left);
            a << c << Ch('|');
            b << std::basic_string_view<Ch, Tr>(f) << Ch('|');
            if (!same(a.str(), b.str())) bad("output", "stream output");
        }
    }
    void compare(int i, int j) {
        S const &x = at(i), &y = at(j);
        Ref const &a = s[i].ref, &b = s[j].ref;
        std::basic_string_view<Ch, Tr> bv = b;
        auto o = a <=> b;
        if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (o < 0) || (x > y) != (o > 0) || (x <= y) != (o <= 0) || (x >= y) != (o >= 0) || (x <=> y) != o)
            bad("compare", vt::fmt("strings %d and %d", i, j));
        if ((x == bv) != (a == b) || (bv == x) != (a == b) || (x < bv) != (o < 0) || (bv > x) != (o < 0) || (x <=> bv) != o) bad("compare-view", vt::fmt("string %d with view of %d", i, j));
        static_assert(std::is_same_v<decltype(x <=> y), decltype(a <=> b)>);
        vt::count("comparisons");
    }
    // run f with a possibly failing allocation
    template<class F> bool guarded(F &&f, int target = -1) {
        bool inject = monitored && r.chance(25);
        if (inject) mon::reg().fail_in = static_cast<long>(r.below(2));
        try {
            f();
            mon::reg().fail_in = -1;
            return true;
        } catch (std::bad_alloc const &) {
            mon::reg().fail_in = -1;
            if (!inject) bad("bad_alloc", "allocation failed without injection");
            vt::count("failed_allocations");
            log += "!bad_alloc ";
            // a failed assignment leaves a valid string: what it held before, or nothing
            if (target >= 0 && s[target].alive) {
                if (at(target).empty()) s[target].ref.clear();
                else if (!same(read(at(target)), s[target].ref)) bad("after-failed-assignment", vt::fmt("string %d", target));
            }
            return false;
        }
    }
    // after a failed assignment both operands must be valid: same content as before
    void step() {
        int k = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
        unsigned op = static_cast<unsigned>(r.below(10));
        if (op >= 5 && op <= 8 && !s[k].alive) op = r.below(2);
        int id = 1 + static_cast<int>(r.below(3));
        switch (op) {
            case 0:
                kill(k);
                log += vt::fmt("default(%d,@%d) ", k, id);
                new (s[k].mem) S(mk(id));
                s[k].alive = s[k].known = true;
                s[k].ref.clear();
                s[k].id = id;
                break;
            case 1: case 2: {
                Ref f = random_ref();
                kill(k);
                log += vt::fmt("from_view(%d,len %zu,@%d) ", k, f.size(), id);
                if (guarded([&] { new (s[k].mem) S(std::basic_string_view<Ch, Tr>(f), mk(id)); })) {
                    std::fill(s[k].ref.begin(), s[k].ref.end(), Ch(1));
                    s[k].ref = f;
                    s[k].alive = s[k].known = true;
                    s[k].id = id;
                }
                break;
            }
            case 3:
                if (j == k || !s[j].alive || !s[j].known) break;
                kill(k);
                log += vt::fmt("copy(%d<-%d) ", k, j);
                if (guarded([&] { new (s[k].mem) S(std::as_const(at(j))); })) {
                    s[k].alive = s[k].known = true;
                    s[k].ref = s[j].ref;
                    s[k].id = s[j].id;
                    if constexpr (monitored) if (s[j].id >= 0) s[k].id = AT::select_on_container_copy_construction(mk(s[j].id)).id;
                }
                break;
            case 4:
                if (j == k || !s[j].alive || !s[j].known) break;
                kill(k);
                log += vt::fmt("move(%d<-%d) ", k, j);
                {
                    uint64_t before = mon::reg().allocs;
                    new (s[k].mem) S(std::move(at(j)));
                    if (mon::reg().allocs != before) bad("move-allocates", "move construction allocated");
                }
                s[k].alive = s[k].known = true;
                s[k].ref = s[j].ref;
                s[k].id = s[j].id;
                s[j].ref = read(at(j)); // valid but unspecified
                break;
            case 5: case 6:
                if (!s[j].alive || !s[j].known) break;
                log += vt::fmt("assign(%d<-%d) ", k, j);
                if (guarded([&] { if (&(at(k) = std::as_const(at(j))) != &at(k)) bad("return", "operator= returns something else"); }, k)) {
                    s[k].ref = s[j].ref;
                    if (AT::propagate_on_container_copy_assignment::value) s[k].id = s[j].id;
                }
                break;
            case 7: {
                if (!s[j].alive || j == k) break;
                log += vt::fmt("massign(%d<-%d) ", k, j);
                uint64_t before = mon::reg().allocs;
                bool steal = monitored && (AT::propagate_on_container_move_assignment::value || (s[k].id >= 0 && s[k].id == s[j].id));
                if (guarded([&] { if (&(at(k) = std::move(at(j))) != &at(k)) bad("return", "operator= returns something else"); }, k)) {
                    if (steal && mon::reg().allocs != before) bad("move-allocates", "move assignment between strings that may share buffers allocated");
                    s[k].ref = s[j].ref;
                    Ref left = read(at(j));
                    s[j].ref = left;
                    if (AT::propagate_on_container_move_assignment::value) {
                        s[k].id = s[j].id;
                        s[j].id = -1; // which allocator the source keeps is its own business; its further use is checked by the registry
                    }
                }
                break;
            }
            case 8:
                if (!s[j].alive) break;
                if (monitored && !AT::propagate_on_container_swap::value && (s[j].id != s[k].id || s[j].id < 0)) break; // undefined for std containers too
                log += vt::fmt("swap(%d,%d) ", k, j);
                {
                    using std::swap;
                    swap(at(k), at(j));
                }
                if (j != k) {
                    std::swap(s[k].ref, s[j].ref);
                    std::swap(s[k].id, s[j].id);
                }
                break;
            default:
                if (s[k].alive && s[k].ref.size() && r.coin()) {
                    size_t i = r.below(s[k].ref.size());
                    Ch c = random_char<Ch>(r);
                    log += vt::fmt("write(%d,%zu) ", k, i);
                    switch (r.below(3)) {
                        case 0: at(k)[i] = c; break;
                        case 1: at(k).begin()[i] = c; break;
                        default: std::to_address(at(k).data())[i] = c;
                    }
                    s[k].ref[i] = c;
                } else {
                    log += vt::fmt("destroy(%d) ", k);
                    kill(k);
                }
        }
    }
    void run() {
        mon::reset();
        unsigned n = 3 + static_cast<unsigned>(r.below(20));
        for (unsigned i = 0; i < n; ++i) {
            step();
            size_t blocks = 0;
            uint64_t h = 0;
            for (int k = 0; k < N; ++k) {
                if (!s[k].alive) continue;
                check(k);
                if (s[k].ref.size()) ++blocks;
                h = vt::mix(h, s[k].ref.size() * 10 + static_cast<uint64_t>(s[k].id));
                if constexpr (monitored) {
                    if (s[k].ref.size()) {
                        auto it = mon::reg().blocks.find(std::to_address(at(k).data()));
                        if (it == mon::reg().blocks.end()) bad("not-allocated", "buffer does not come from the allocator");
                        else if (s[k].id >= 0 && it->second.id != mk(s[k].id).id) bad("wrong-allocator", vt::fmt("buffer of string %d comes from allocator %d, expected %d", k, it->second.id, s[k].id));
                        else if (it->second.bytes != s[k].ref.size() * sizeof(Ch)) bad("buffer-size", "buffer size");
                    }
                }
            }
            if (monitored) mon::expect_blocks(blocks, log.c_str());
            int a = static_cast<int>(r.below(N)), b = static_cast<int>(r.below(N));
            if (s[a].alive && s[b].alive) compare(a, b);
            vt::count("operations");
            vt::distinct(vt::mix(h, vt::hash_str(log)));
            if (vt::st().failures) break;
        }
        for (int k = 0; k < N; ++k) kill(k);
        if (monitored) mon::expect_blocks(0, log.c_str());
        if (vt::want_sample(vt::st().cur_suite)) vt::sample(vt::st().cur_suite, log);
    }
};

template<class Ch, unsigned F, class Tr = std::char_traits<Ch>>
void suite(char const *name, uint64_t n) {
    vt::run(name, n, [](vt::Rng &r, uint64_t) { Prog<Ch, Tr, mon::Mon<Ch, F>>(r).run(); });
}

static void vt_main() {
    using namespace mon;
    suite<char, 0>("char-plain", 1000);
    suite<wchar_t, 0>("wchar", 1000);
    suite<char8_t, pocma>("char8-pocma", 1000);
    suite<char16_t, pocca | pocma | pocs>("char16-propagate-all", 1000);
    suite<char32_t, pocca>("char32-pocca", 1000);
    suite<char, pocca>("char-pocca", 1000);
    suite<char, pocs | soccc>("char-pocs-soccc", 1000);
    suite<wchar_t, always_equal>("wchar-always-equal", 1000);
    suite<char, pocma | soccc, CiTraits>("traits", 1000);
    suite<char32_t, 0, std::char_traits<char32_t>>("char32", 1000);
    vt::run("std-char", 500, [](vt::Rng &r, uint64_t) { Prog<char, std::char_traits<char>, std::allocator<char>>(r).run(); });
    vt::run("std-u32", 500, [](vt::Rng &r, uint64_t) { Prog<char32_t, std::char_traits<char32_t>, std::allocator<char32_t>>(r).run(); });
    vt::run("aliases", 1, [](vt::Rng &, uint64_t) {
        VT_CHECK("alias", std::string_view(dtl::static_string("abc")) == "abc" && std::wstring_view(dtl::static_wstring(L"abc\x1234")) == L"abc\x1234");
        VT_CHECK("alias", std::u8string_view(dtl::static_u8string(u8"abc")) == u8"abc" && std::u16string_view(dtl::static_u16string(u"abc")) == u"abc" && std::u32string_view(dtl::static_u32string(U"abc")) == U"abc");
        VT_CHECK("compare-literal", dtl::static_string("abc") == "abc" && dtl::static_string("abc") < "abd" && "abd" > dtl::static_string("abc"));
    }, false);
}
VT_MAIN
