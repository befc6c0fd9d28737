// Deterministic simulator runtime: interface used by the scenarios.
//
// The scenarios and, through them, the headers of /repo are compiled with
// -fsanitize=thread, but the ThreadSanitizer runtime is never linked: every
// __tsan_* entry point, the pthread/futex/clock/sleep calls and operator
// new/delete are defined in rt.cpp.  So each memory access and each atomic
// operation of the code under test is a point where the simulator decides
// which simulated thread (a fiber) runs next.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <utility>
#include <vector>

namespace sim {
using u64 = std::uint64_t;
using i64 = std::int64_t;
using u32 = std::uint32_t;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ULL);
        z     = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z     = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(below(static_cast<u64>(hi - lo + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

/// One operation of the generated workload; what the numbers mean is the scenario's business.
struct Op {
    int th   = 0;    // simulated client thread that performs it
    int kind = 0;
    i64 a = 0, b = 0, c = 0;
};

/// Everything that is decided before a run starts.
struct Plan {
    std::map<std::string, i64> p;      // configuration (sizes, modes, swarm knobs)
    std::vector<Op>            ops;    // workload and environment events (clock jumps, ...)
    i64 get(char const* k, i64 d = 0) const
    {
        auto it = p.find(k);
        return it == p.end() ? d : it->second;
    }
};

enum Fault { F_ENOMEM, F_EAGAIN, F_EINTR, F_SPURIOUS, F_THROW, F_MAX };
extern char const* const fault_names[F_MAX];

// ---------------------------------------------------------------- inside a run
/// Report a violation; does not return.
[[noreturn]] void fail(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
/// Report something that may be a listed finding: returns if `key` is listed, otherwise is fail().
void finding(char const* key, char const* cls, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
/// Append to the event log (hashed; kept in text when replaying).
void log(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(char const* name, u64 n = 1);    // "this rare condition was reached"
void count_fault(char const* name, u64 n = 1);
bool fault(Fault k);            // ask the fault stream whether this kind strikes here
void arm(Fault k, u32 mean);    // mean gap between strikes (0: off)
void disarm_all();
i64  spun_ns();                // simulated time charged so far to threads that waited without blocking
u64  fault_hits(Fault k);       // strikes so far in this run
/// Allocation/creation/callback faults strike only in fibers that are inside such a scope.
struct Faulty {
    bool old;
    explicit Faulty(bool on = true);
    ~Faulty();
};

u64  spawn(std::function<void()> body, char const* name);    // harness client thread
void join(u64 id);
void yield();                      // give way (a recorded decision)
void point();                      // a possible preemption
void sleep_ns(i64 ns);             // simulated sleep of the calling fiber
i64  mono_ns();                    // simulated monotonic time
i64  real_ns();                    // simulated wall-clock time
void jump_wall(i64 ns);            // clock-jump fault
void advance(i64 ns);              // let simulated time pass for everybody
int  self();                       // id of the running fiber
int  live_threads();               // simulated threads (of the code under test) not finished
u64  seq();                        // global event sequence number (each call is one event)
u64  steps();
void fair(bool on);                // from here on schedule fairly (liveness phase)
void freeze(bool on);               // simulated time passes only in sleeps and waits
void spin_cost_ns(i64 ns);           // what a spinning thread's turn costs in simulated time, 64 times this at most
void set_step_limit(u64 n);        // steps from now within which the run must finish
void stall_mode(bool on);          // sleepers may be picked early (others are then slow)
void race_mode(bool on);           // report happens-before races on simulated heap memory
void settle();                     // run others until only sleepers/blocked threads are left
void block_until(std::function<bool()> cond, char const* what);    // harness-side wait (cond is re-evaluated)

// Code under test runs inside a Sut scope, harness code (callbacks, oracles) inside a Harness scope.
extern int* mode_ptr();
struct Sut {
    int old;
    Sut() : old(*mode_ptr()) { *mode_ptr() = 1; }
    ~Sut() { *mode_ptr() = old; }
};
struct Harness {
    int old;
    Harness() : old(*mode_ptr()) { *mode_ptr() = 0; }
    ~Harness() { *mode_ptr() = old; }
};
template <class F>
decltype(auto) sut(F&& f)
{
    Sut s;
    return f();
}

// Simulated heap.  Freed blocks are never reused within a run, so touching one is always noticed.
void* arena_alloc(std::size_t n, std::size_t align);
void  arena_free(void* p);
u64   arena_live_blocks();
u64   arena_live_bytes();
bool  in_arena(void const* p);

/// Construct an object of the code under test in the simulated heap (constructor runs as SUT code).
template <class T, class... A>
T* make(A&&... a)
{
    void* m = arena_alloc(sizeof(T), alignof(T));
    try {
        Sut s;
        return new (m) T(std::forward<A>(a)...);
    } catch (...) {
        arena_free(m);
        throw;
    }
}
/// Does f, in some runs while an exception is on its way.
bool unwinding();
template <class F>
void tear_down(F f)
{
    if (!unwinding()) return f();
    struct Guard {
        F& f;
        ~Guard() noexcept(false) { f(); }
    };
    struct Unwind {};
    try {
        Guard g{f};
        throw Unwind{};
    } catch (Unwind const&) {
    }
}
template <class T>
void destroy(T* p)
{
    tear_down([p] {
        Sut s;
        p->~T();
    });
    arena_free(p);
}

// ---------------------------------------------------------------- scenarios
struct Scenario {
    char const* name;
    char const* property;
    Plan (*gen)(Rng&, int tier);
    void (*run)(Plan const&);
    std::string (*describe)(Op const&);
    char const* faults;    // environment events this scenario can inject, for the evidence
    u64 share = 1;         // relative number of runs of the property spent on this scenario
};
struct Register {
    explicit Register(Scenario s);
};
}    // namespace sim
