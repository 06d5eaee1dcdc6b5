// Controlled scheduler: the code under test runs on fibers; every lock,
// semaphore, pool task, thread start/join and stream operation is a point where
// the explorer decides which fiber goes on. Explorer::explore runs a scenario
// under every schedule with at most `Preemptions` preemptions.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
using Str = std::string;
/// A point where another fiber may run. No-op outside a fiber.
void point(const char *What);
/// Waits until P() holds.
void block(std::function<bool()> P, const char *What);
/// Waits until P() holds, or gives up when no fiber can run.
bool blockOrTimeout(std::function<bool()> P, const char *What);
/// Waits until P() holds. Time passes for it only when everything else is at
/// rest, main included.
bool blockLate(std::function<bool()> P, const char *What);
/// Waits until no other fiber can run (quiescence).
void quiesce();
/// Starts a fiber. Returns its number.
int spawn(std::function<void()> F, const char *Name = "");
bool done(int Id);
bool inFiber();
int self();
/// Chooses among N alternatives, explored exhaustively.
unsigned choose(unsigned N, const char *What);
/// Ends the current schedule as a failure.
[[noreturn]] void giveUp(Str Why);

struct Outcome {
  bool Deadlock = false, Limit = false;
  Str Note;      ///< blocked fibers, or what was thrown
  Str Thrown;    ///< an exception left a fiber: the program would have been terminated
  Str Schedule;  ///< choices taken
  uint64_t Steps = 0;
};
struct Explorer {
  unsigned Preemptions = 2;
  /// Where a fiber blocks, going on with another than the first ready one
  /// counts as a preemption, too (a bound on all deviations from one order).
  bool Deviations = false;
  uint64_t MaxSteps = 20000;
  uint64_t MaxSchedules = 2000000;
  bool Trace = false;
  bool Single = false; ///< the first schedule only
  uint64_t Schedules = 0, Steps = 0, Choices = 0;
  bool Capped = false;
  std::vector<unsigned> Fixed; ///< replays this schedule only, if not empty
  /// Runs Main as the first fiber under every schedule; Check sees each outcome
  /// and returns false to stop. Main is called afresh for each schedule.
  void explore(const std::function<void()> &Main, const std::function<bool(const Outcome &)> &Check);
};
} // namespace sched
