// Controlled scheduler: exactly one registered thread runs at a time; every pthread
// mutex/rwlock/condvar call, futex wait/wake, atomic access (through the __tsan_* callbacks that
// -fsanitize=thread instrumentation emits, see sched_rt.cpp) and sched::point() is a scheduling
// point.  The schedule is a pure function of the seed, so every execution can be replayed.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Config {
    uint64_t seed = 1;
    unsigned switch_pct = 30;    // random-walk: chance to switch at a point
    unsigned mem_pct = 0;        // chance that a plain memory access is a point at all
    unsigned spurious_pct = 0;   // chance for a condvar waiter to be woken spuriously
    int pct_depth = -1;          // >=0: PCT strategy with this many priority change points
    uint64_t max_steps = 2000000;
};

enum class Outcome {
    finished,   // all threads ran to completion
    stuck,      // no thread can run; on_stuck returned false (its verdict is up to the caller)
    step_limit, // inconclusive
    foreign_block, // a registered thread blocked outside the scheduler: inconclusive
};

struct ThreadInfo {
    bool done = false;
    bool blocked = false;
    char const *what = "";
};

struct Result {
    Outcome outcome = Outcome::finished;
    uint64_t steps = 0, switches = 0, spurious = 0, blocks = 0;
    uint64_t misuse = 0; // unlock of something that is not locked by the caller
    uint64_t trace_hash = 0; // hash of the sequence of (thread, point kind)
};

// Runs the bodies as registered threads (ids 0..n-1) until all are done.  When nothing can run
// although some thread is unfinished, on_stuck(info) is called (by the controller, with all threads parked); it may
// return true after having arranged for progress by calling sched::release(id) on a gated thread.
Result run(Config const &cfg, std::vector<std::function<void()>> const &bodies,
           std::function<bool(std::vector<ThreadInfo> const &)> const &on_stuck);

void point(char const *kind = "user"); // explicit scheduling point
void gate();                           // block the calling thread until release(id)
void release(unsigned id);
int self();                            // registered id or -1
uint64_t my_blocks();                  // how often the calling thread has been blocked so far
uint64_t now();                        // logical time
void quiet(bool on);                   // suppress points in the calling thread (recording code)
struct Quiet { Quiet() { quiet(true); } ~Quiet() { quiet(false); } };
unsigned random(unsigned n);           // schedule-derived randomness for injected faults

} // namespace sched
