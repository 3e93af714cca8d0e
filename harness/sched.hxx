#pragma once
// Controlled execution of real threads.
//
// The threads of a workload are ordinary pthreads, but only one of them runs at a time: it holds
// the baton. Every synchronisation call (pthread_mutex_*, pthread_cond_*, ...) and every memory access of
// the code under test (compiled with -fsanitize=thread; the __tsan_* entry points are ours) is a point where the
// baton can be handed to another thread. Time is virtual and advances only when nothing can run.
#include <functional>
#include <string>
#include <vector>
#include <cstdint>

namespace sched {
  struct Options {
    std::string strategy;     // "random", "pct", "starve", "dfs", "replay"
    uint64_t seed = 1;
    int spurious = 0;         // at most this many spurious wakeups in a run
    int steals = 0;                            // at most this many times a deadline passes while threads could run
    long steps = 20000;       // more than this in a run: the run hangs
    bool deep = false;        // calls, returns and branches are scheduling points, too
    long memPercent = 100;    // portion of memory accesses that are scheduling points
    std::vector<std::pair<long, int>> picks;   // for replay: decision number, choice
  };

  enum Status { DONE, STUCK, HANG };

  struct Result {
    Status status;
    std::vector<int> stuck;                    // threads that can never run again
    std::string picks;                         // "number:choice,..." of the choices that were not the default
  };

  // run the bodies as threads 0, 1, ...
  Result run(const std::vector<std::function<void()>> & bodies, const Options & opt);

  // depth first search over all schedules with at most `bound' choices that are not the default:
  void dfsStart(int bound);
  bool dfsNext();                              // prepares the next run; false: all explored

  int self();                                  // number of the running thread, -1 outside
  int64_t now();                               // virtual nanoseconds since the run began
  int64_t stolen();                            // the part of it that passed while threads could run
  const std::string & picksSoFar();
  void sleepFor(int64_t ns);                   // virtual sleep of the running thread
  void quiet(bool q);                          // no scheduling points while true (for logging)
}
