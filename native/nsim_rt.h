// Deterministic scheduler for native threads at memory-access granularity.
#ifndef NSIM_RT_H
#define NSIM_RT_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace nsim {
  struct Preempt { uint64_t gap; int thread; };

  struct Outcome {
    uint64_t events = 0;       // instrumented accesses to memory other than the thread's own stack
    uint64_t switches = 0;
    uint64_t signature = 0;    // hash of the sequence of (thread, event) at which the token moved
    bool deadlock = false;
    std::vector<std::string> races;
    uint64_t racy = 0;
  };

  // Runs the functions in threads of their own, exactly one at a time; at the
  // n-th event (counted by gaps) the token goes to the given thread.
  // The process ends after the given number of events, with a report saying so.
  Outcome run(const std::vector<std::function<void()>>& threads, const std::vector<Preempt>& schedule, uint64_t limit);

  const size_t BIGGEST = 2 << 20;   // a larger allocation fails
}
#endif
