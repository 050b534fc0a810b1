// A cooperative, deterministic scheduler.  The code under test runs in ordinary
// OS threads, but only one of them is running at any time, and all the
// synchronization operations (see sched_prelude.hpp) are scheduling points at
// which the scheduler picks the thread that proceeds.  An execution is thus
// entirely determined by the sequence of its choices, which makes it possible
// to enumerate schedules and to replay them.
#pragma once

#include <chrono>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace verif::sched {

// Virtual time, in nanoseconds.
using Nanos = std::int64_t;
constexpr Nanos kNever = INT64_MAX;

// True in the child process that runs an execution.
bool Active();

// A scheduling point where the current thread remains enabled.
void Point();
// Blocks the current thread until `ready` returns true.  `ready` is called by
// any thread.
void Block(std::function<bool()> const& ready);
// Same as above, with a virtual deadline.  Returns the value of `ready` when
// the thread is resumed.
bool BlockUntil(std::function<bool()> const& ready, Nanos deadline);

Nanos Now();

// Thread management.
int Spawn(std::function<void()> body);
bool Finished(int id);
void JoinThread(int id);
int Self();

// Called, in the thread, when the body of a spawned thread has ended.
extern std::function<void()> thread_exit_hook;

// Records an observable event, as the text of a JSON object without its braces.
void Record(std::string const& json);
// The process would die here.
[[noreturn]] void Die(std::string const& message);

struct Options {
  int preemption_bound = 2;
  int max_dfs = 2000;
  int max_random = 1000;
  int max_steps = 4000;
  std::uint64_t seed = 1;
  double seconds = 1e9;
};

struct Stats {
  std::int64_t executions = 0;
  std::int64_t distinct = 0;
  std::int64_t points = 0;
  bool exhausted = false;  // The DFS covered the entire bounded space.
};

// Runs `scenario` in many schedules and calls `emit` with each distinct trace,
// i.e., a comma-separated list of JSON objects.
Stats Explore(Options const& options,
              std::function<void()> const& scenario,
              std::function<void(std::string const& trace,
                                 std::string const& schedule,
                                 std::string const& ending)> const& emit);

// Runs a single schedule, given as by the second parameter of `emit`.
void Replay(std::string const& schedule,
            std::function<void()> const& scenario,
            std::function<void(std::string const& trace,
                               std::string const& schedule,
                               std::string const& ending)> const& emit);

}  // namespace verif::sched
