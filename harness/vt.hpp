// Common support for the monitoring harnesses: deterministic randomness, case bookkeeping,
// failure reporting, coverage counters.  Output protocol (read by check.py):
//   @FAIL key=<slug> suite=<suite> case=<n> msg=<text>
//   @CRASH suite=<suite> case=<n>         (printed while dying from a signal or sanitizer report)
//   @COV {json}                           (once, at normal exit)
// exit code: 0 all cases held, 10 failures were reported, 20 harness error.
#pragma once
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>
#if __has_include(<valgrind/memcheck.h>) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#include <valgrind/memcheck.h>
#define VT_MEMCHECK 1
#endif

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vt {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t in(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    bool coin() { return u64() & 1; }
    template<class C> auto &pick(C &c) { return c[below(c.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x2545f4914f6cdd1dull + b + 0x1234567);
    r.u64();
    return r.u64();
}
inline uint64_t hash_str(std::string_view s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

struct State {
    uint64_t seed = 1;
    uint64_t scale = 100;       // percent of the default case counts
    unsigned shard = 0, shards = 1;
    std::string only_suite, hashes;
    int64_t only_case = -1;
    std::string cur_suite = "-";
    char cur_suite_c[96] = "-";
    volatile int64_t cur_case = -1;
    uint64_t failures = 0;
    uint64_t evaluations = 0;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> suite_cases;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, unsigned> sample_count;
    std::map<std::string, unsigned> fail_keys;
};
inline State &st() {
    static State s;
    return s;
}

inline void write_crash() {
    char buf[200];
    int n = snprintf(buf, sizeof buf, "\n@CRASH suite=%s case=%lld\n", st().cur_suite_c, static_cast<long long>(st().cur_case));
    if (n > 0) (void) !write(1, buf, static_cast<size_t>(n));
}
inline void on_signal(int sig) {
    write_crash();
    signal(sig, SIG_DFL);
    raise(sig);
}

inline std::string vfmt(char const *f, va_list ap) {
    char buf[2048];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
[[gnu::format(printf, 1, 2)]] inline std::string fmt(char const *f, ...) {
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    return s;
}
inline void fail_s(std::string const &key, std::string msg) {
    auto &s = st();
    for (auto &c : msg)
        if (c == '\n' || c == '\r') c = ' ';
    ++s.failures;
    if (++s.fail_keys[key] <= 3) {
        printf("@FAIL key=%s suite=%s case=%lld msg=%s\n", key.c_str(), s.cur_suite.c_str(), static_cast<long long>(s.cur_case), msg.c_str());
        fflush(stdout);
    }
}
[[gnu::format(printf, 2, 3)]] inline void fail(char const *key, char const *f, ...) {
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    fail_s(key, s);
}
inline void count(std::string const &name, uint64_t n = 1) { st().counters[name] += n; }
// one distinct, non-trivial case/state observed
inline void distinct(uint64_t h) {
    auto &d = st().distinct;
    if (d.size() < 300000) d.insert(h);
}
inline void sample(std::string const &kind, std::string text) {
    auto &s = st();
    if (s.shard != 0) return;
    if (s.sample_count[kind]++ < 2 && s.samples.size() < 24) {
        if (text.size() > 700) text.resize(700);
        s.samples.push_back(kind + ": " + text);
    }
}
inline bool want_sample(std::string const &kind) {
    return st().shard == 0 && st().sample_count[kind] < 2 && st().samples.size() < 24;
}

#define VT_CHECK(key, cond, ...)                         \
    do {                                                 \
        if (!(cond)) ::vt::fail(key, "[" #cond "] " __VA_ARGS__); \
    } while (0)

// run body(rng, case index) for n cases (scaled), sharded
inline void set_suite(std::string const &suite) {
    auto &s = st();
    s.cur_suite = suite;
    snprintf(s.cur_suite_c, sizeof s.cur_suite_c, "%s", suite.c_str());
}
// fresh storage: recognisable garbage, and undefined for memcheck
inline void scrub(void *p, size_t n, int byte = 0xEE) {
    memset(p, byte, n);
#ifdef VT_MEMCHECK
    VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
}
// errors memcheck reported since the last call (0 when not running under it)
inline void memcheck_errors() {
#ifdef VT_MEMCHECK
    static unsigned long seen = 0;
    unsigned long now = VALGRIND_COUNT_ERRORS;
    if (now > seen) fail("memcheck", "%lu memory errors (uninitialised or invalid accesses)", now - seen);
    if (RUNNING_ON_VALGRIND) count("cases_under_memcheck");
    seen = now;
#endif
}
template<class F>
void run(std::string const &suite, uint64_t n, F &&body, bool scaled = true) {
    auto &s = st();
    if (!s.only_suite.empty() && s.only_suite != suite) return;
    if (scaled) n = std::max<uint64_t>(1, n * s.scale / 100);
    set_suite(suite);
    for (uint64_t i = 0; i < n; ++i) {
        if (s.only_case >= 0 ? static_cast<uint64_t>(s.only_case) != i : i % s.shards != s.shard) continue;
        s.cur_case = static_cast<int64_t>(i);
        Rng r(mix(mix(s.seed, hash_str(suite)), i));
        ++s.evaluations;
        ++s.suite_cases[suite];
        try {
            body(r, i);
        } catch (std::exception const &e) {
            fail("unexpected-exception", "%s: %s", typeid(e).name(), e.what());
        } catch (...) {
            fail("unexpected-exception", "unknown type");
        }
        memcheck_errors();
        if (s.failures > 40) break;
    }
    s.cur_case = -1;
}

inline std::string json_escape(std::string const &in) {
    std::string o;
    for (unsigned char c : in) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o;
}

inline void init(int argc, char **argv) {
    auto &s = st();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : "0"); };
        if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--scale") s.scale = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--shard") s.shard = static_cast<unsigned>(strtoul(val().c_str(), nullptr, 10));
        else if (a == "--shards") s.shards = static_cast<unsigned>(strtoul(val().c_str(), nullptr, 10));
        else if (a == "--suite") s.only_suite = val();
        else if (a == "--hashes") s.hashes = val();
        else if (a == "--case") s.only_case = strtoll(val().c_str(), nullptr, 10);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (&__sanitizer_set_death_callback) __sanitizer_set_death_callback(&write_crash);
    signal(SIGABRT, on_signal);
    if (!&__sanitizer_set_death_callback) {
        signal(SIGSEGV, on_signal);
        signal(SIGBUS, on_signal);
        signal(SIGFPE, on_signal);
        signal(SIGILL, on_signal);
    }
}

inline int finish() {
    auto &s = st();
    std::string o = "{\"evaluations\":" + std::to_string(s.evaluations);
    o += ",\"counters\":{";
    bool first = true;
    for (auto &[k, v] : s.counters) {
        o += (first ? "\"" : ",\"") + json_escape(k) + "\":" + std::to_string(v);
        first = false;
    }
    o += "},\"suites\":{";
    first = true;
    for (auto &[k, v] : s.suite_cases) {
        o += (first ? "\"" : ",\"") + json_escape(k) + "\":" + std::to_string(v);
        first = false;
    }
    o += "},\"distinct\":" + std::to_string(s.distinct.size()) + ",\"samples\":[";
    first = true;
    for (auto &x : s.samples) {
        o += (first ? "\"" : ",\"") + json_escape(x) + "\"";
        first = false;
    }
    o += "],\"failures\":" + std::to_string(s.failures) + "}";
    if (!s.hashes.empty()) {
        if (FILE *f = fopen(s.hashes.c_str(), "wb")) {
            uint64_t n = 0;
            for (uint64_t h : s.distinct) {
                if (n++ >= 300000) break;
                fwrite(&h, sizeof h, 1, f);
            }
            fclose(f);
        }
    }
    printf("\n@COV %s\n", o.c_str());
    fflush(stdout);
    return s.failures ? 10 : 0;
}

} // namespace vt

#define VT_MAIN                            \
    int main(int argc, char **argv) {      \
        ::vt::init(argc, argv);            \
        vt_main();                         \
        return ::vt::finish();             \
    }
