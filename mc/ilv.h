// Engine B: systematic exploration of thread interleavings of the real code.
//
// The library and the harness are compiled with -fsanitize=thread *instrumentation* but linked with
// the runtime in ilv.cpp instead of libtsan, and the pthread/futex/epoll/eventfd/timerfd/malloc
// entry points are wrapped (-Wl,--wrap). Exactly one thread runs at a time; before every visible
// operation (atomic access, lock, condition variable, futex, thread start/join, descriptor
// operation) the explorer decides which enabled thread performs its operation next. Plain memory
// accesses are checked for data races (vector clocks) and for use of freed or unallocated memory.
#pragma once
#include "mc.h"

namespace sched {

struct Opts {
    int preempt = 2;      // preemption bound; -1: unbounded, reduced with sleep sets
    int delays = -1;      // >= 0: at most so many choices (of thread, waiter, descriptor) other than the default, round robin
    int deviations = 0;   // budget of environment deviations (spurious wake-ups, EINTR)
    bool races = true;    // report data races
    bool race_points = false; // plain accesses registered with sched::watch() are visible operations
    bool leaks = true;    // report memory and descriptors still held at the end
    bool drain = true;    // every thread must finish
    int ncpu = 2;         // what sysconf(_SC_NPROCESSORS_ONLN) answers
    int max_steps = 6000; // more visible operations than this in one execution: livelock
    bool timers = true;   // armed timers may fire at any time
};

// Run `body` as the first thread of a controlled execution; returns when every thread finished.
void run(mc::Ctx& c, const Opts& o, const std::function<void()>& body);

// --- for use inside the controlled execution; none of this is instrumented or scheduled
int64_t get(int reg);
void set(int reg, int64_t v);
int64_t add(int reg, int64_t v); // returns the new value
int64_t stamp();                 // strictly increasing
int self();                      // index of the running thread
void watch(const volatile void* p, size_t n); // see Opts::race_points
void yield();                    // a visible operation that lets others go first
uint64_t now_ns();   // virtual time
void relax(bool on); // blocks allocated while on: a plain read racing with a write is not reported
void expect_leaks(int blocks);   // this many blocks may remain allocated at the end
long live_blocks();
long live_fds();
bool redundant();                // this execution is an equivalent repetition: outcome ignored
bool blocked_forever();
bool freed(const void* p);       // p points into a block that was freed
long live_threads();             // threads that have not finished (including the caller)

} // namespace sched
