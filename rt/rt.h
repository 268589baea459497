// Controlled execution of real threads.
//
// The code under test is compiled with -fsanitize=thread but linked with this
// runtime instead of thread sanitizer's. Only one thread runs at a time; who runs
// next is decided at every synchronisation operation (lock, try-lock, atomic
// operation, once, static-local guard, thread start and end). explore() runs the
// program once for every schedule within a bound on preemptions (switches away
// from a thread that could go on). In every execution a vector-clock detector
// judges every memory access of the instrumented code: two accesses to one byte,
// one of them a write, that no chain of synchronisation orders, are a data race.
// A state in which no thread can go on is a deadlock. Since code without data
// races behaves the same under all interleavings of its plain accesses, deciding
// at synchronisation operations covers all interleavings within the bound.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace rt {
struct Stats {
  std::uint64_t schedules = 0, sync_ops = 0, accesses = 0, preempted = 0, max_sync = 0;
  bool complete = true;              // every schedule within the bound was run
  int bound = -1;                    // all schedules with at most this many preemptions were run
};
struct Problem { std::string what; };  // thrown by explore; the process is not fit for more afterwards

// setup() before and check() after every execution, on the calling thread; body(k) on thread k.
// With `apart`, every execution runs in a process of its own, forked from this one,
// so that whatever the code keeps in static data is as cold as it is here.
// Bounds 0, 1, ... `preemptions` are completed in turn, for at most `seconds`.
Stats explore(int threads, int preemptions, double seconds, bool apart, const std::function<void()> &setup,
              const std::function<void(int)> &body, const std::function<void()> &check);
}
