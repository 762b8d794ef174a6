// A seeded scheduler for real threads, one of which runs at a time, and a happens-before race detector.
//
// Code compiled with -fsanitize=thread calls the functions of tsan_rt.cpp instead of a sanitizer's: every access to
// memory other than the thread's own stack is a point at which the simulator may let another thread run.
#ifndef SIM_SCHED_HPP
#define SIM_SCHED_HPP
#include <functional>
#include <vector>

#include "core.hpp"

namespace sim {
[[noreturn]] void fatal (std::string cls, std::string msg);  // reports a violation from any thread

namespace sched {
struct Config {
  std::uint64_t start = 0;       // accesses before the first switch
  std::uint32_t spread = 1;      // switches are 1..2*spread accesses apart
  unsigned switches = 100;       // at most so many unforced ones
};
struct Result {
  std::uint64_t accesses = 0, switches = 0, blocked = 0, granules = 0, order = 0, atomics = 0;
};
// Runs the tasks to completion in threads of their own.
Result run (Ctx& c, Config const& cfg, std::vector<std::function<void ()>> const& tasks);
// Instrumentation counts only between these, in a task.
void enter ();
void leave ();
// The calling task's n-th allocation from now on fails (0: none); returns how many failed before.
unsigned fail_allocation (std::uint64_t n, bool all_after);
void note (std::string const& line);  // event log
}  // namespace sched
}  // namespace sim
#endif
