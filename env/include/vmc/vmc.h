// vmc: a small stateless model checker.
//
//  * choose(n, ..)   - a choice point; the explorer enumerates every branch
//                      depth-first (deviation bounded, choice 0 = default).
//  * fibers          - logical threads, all run on ONE OS thread by a
//                      cooperative scheduler; every scheduling decision is a
//                      choice point.
//  * Explorer        - runs a closed harness once per distinct choice vector.
//
// Everything nondeterministic in the system under test (message delivery,
// thread interleaving, randomness, chunking of parallel loops, contents of
// fresh memory) is routed through here by the stand-ins under env/include.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace vmc {

// ---- choice points ---------------------------------------------------------
// cost: what taking a non-zero alternative costs against the deviation bound.
int choose(int n, const char* what, int cost = 1);

struct Explorer {
  int bound = 1 << 20;           // max total cost of deviations
  long max_execs = -1;           // stop after that many (-1: no cap)
  double max_seconds = -1;       // stop after that long  (-1: no cap)
  // results
  long execs = 0;
  long choice_points = 0;
  long max_depth = 0;
  bool capped = false;
  std::vector<int> last;         // choice vector of the last execution

  // Runs body() once for every choice vector within the bound.  body returns
  // false to stop the exploration (a violation was recorded by the caller).
  bool explore(const std::function<bool()>& body);
  // Runs body() once with the given prefix of choices (rest default 0).
  bool replay(const std::vector<int>& choices,
              const std::function<bool()>& body);
  std::string lastStr() const;
};

// ---- fibers ----------------------------------------------------------------
struct Fiber;

// Thrown into a fiber whose blocked operation can never complete because some
// other fiber failed (what a receive timeout does in production).
struct Stuck {
  std::string what;
};

struct RunResult {
  bool deadlock = false;              // nobody enabled, nobody had failed
  std::vector<std::string> blocked;   // wait reasons at the deadlock
  std::vector<std::string> errors;    // per main fiber: "" or exception text
  std::vector<bool> stuck;            // error is due to a peer's failure
  long switches = 0;
  bool terminated = false;            // std::terminate-worthy event in a thread
  bool ok() const {
    if (deadlock || terminated) return false;
    for (auto& e : errors)
      if (!e.empty()) return false;
    return true;
  }
  std::string str() const;
};

// Runs the given bodies as fibers (body i belongs to party i) to completion.
RunResult run(const std::vector<std::function<void()>>& bodies);

bool active();       // inside run()
int self_party();    // party of the running fiber (0 outside)
int self_fiber();    // id of the running fiber
Fiber* spawn(std::function<void()> fn);  // new fiber of the same party
void join(Fiber* f);
bool finished(Fiber* f);
// Block until ready() holds (evaluated by the scheduler).
void block(const std::function<bool()>& ready, const std::string& why);
// A preemption point: when preemption is on, other enabled fibers may run here.
void point(const char* what);

struct SchedConfig {
  bool explore_blocking = false;  // choose which fiber runs next when one blocks
  bool delay_bounded = false;     // as above, anything but the policy's pick costs one
  bool preempt = false;           // preemption points are choice points
  // When a fiber blocks / finishes, start scanning from this offset (a cheap
  // way to vary the default schedule).
  int policy = 0;  // 0: lowest id first, 1: highest id first, 2: round robin
};
extern SchedConfig sched;

}  // namespace vmc
