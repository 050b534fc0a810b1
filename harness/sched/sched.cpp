#include "sched.hpp"

#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <memory>
#include <random>
#include <semaphore>
#include <sstream>
#include <thread>
#include <unordered_set>

#include "absl/log/log.h"

namespace verif::sched {

std::function<void()> thread_exit_hook;

namespace {

constexpr int kMaxChoices = 20000;
constexpr int kMaxText = 1 << 20;

struct Choice {
  std::int16_t options;
  std::int16_t chosen;
  // The number of options that do not cost a preemption (they come first).
  std::int16_t free;
};

// Memory shared between the controller and the execution.
struct Shared {
  int text_size;
  int choices_size;
  int done;  // 1: normal end, 2: death, 3: deadlock, 4: step limit, 5: overflow.
  Choice choices[kMaxChoices];
  char text[kMaxText];
};

Shared* shared = nullptr;

struct Thread {
  std::binary_semaphore wake{0};
  std::function<bool()> ready;  // Null if enabled.
  Nanos deadline = kNever;
  bool finished = false;
  std::thread os;
};

struct Execution {
  std::vector<std::unique_ptr<Thread>> threads;
  int current = 0;
  Nanos now = 1'000'000'000'000;
  std::vector<int> prefix;
  bool random = false;
  double switch_probability = 0;
  std::mt19937_64 rng;
  int max_steps = 0;
  int steps = 0;
};

Execution* execution = nullptr;
thread_local int self_id = -1;

[[noreturn]] void Finish(int const how) {
  shared->done = how;
  _exit(0);
}

bool Enabled(Thread const& t) {
  if (t.finished) {
    return false;
  }
  if (t.ready == nullptr) {
    return true;
  }
  return execution->now >= t.deadline || t.ready();
}

int Choose(int const options, int const free) {
  int chosen = 0;
  auto& e = *execution;
  if (options > 1) {
    int const i = shared->choices_size;
    if (i >= kMaxChoices) {
      Finish(5);
    }
    if (i < e.prefix.size()) {
      chosen = e.prefix[i] < options ? e.prefix[i] : 0;
    } else if (e.random) {
      if (free == 1 && std::uniform_real_distribution<>(0, 1)(e.rng) >=
                           e.switch_probability) {
        chosen = 0;
      } else {
        chosen = std::uniform_int_distribution<>(0, options - 1)(e.rng);
      }
    }
    shared->choices[i] = {static_cast<std::int16_t>(options),
                          static_cast<std::int16_t>(chosen),
                          static_cast<std::int16_t>(free)};
    ++shared->choices_size;
  }
  return chosen;
}

// Picks the next thread to run.  The current thread has its `ready` set if it
// is blocked.
int PickNext() {
  auto& e = *execution;
  if (++e.steps > e.max_steps) {
    Finish(4);
  }
  for (;;) {
    std::vector<int> candidates;
    bool const current_enabled = Enabled(*e.threads[e.current]);
    if (current_enabled) {
      candidates.push_back(e.current);
    }
    for (int i = 0; i < e.threads.size(); ++i) {
      if (i != e.current && Enabled(*e.threads[i])) {
        candidates.push_back(i);
      }
    }
    // Time only advances when no thread can run.
    int const options = candidates.size();
    int const free = current_enabled ? 1 : options;
    if (options == 0) {
      Nanos next = kNever;
      for (auto const& t : e.threads) {
        if (!t->finished && t->ready != nullptr && t->deadline < next &&
            t->deadline > e.now) {
          next = t->deadline;
        }
      }
      if (next == kNever) {
        Finish(3);
      }
      e.now = next;
      continue;
    }
    return candidates[Choose(options, free)];
  }
}

void SwitchTo(int const next) {
  auto& e = *execution;
  int const me = self_id;
  if (next == me) {
    return;
  }
  e.current = next;
  e.threads[next]->wake.release();
}

}  // namespace

bool Active() {
  return execution != nullptr && self_id >= 0;
}

bool BlockUntil(std::function<bool()> const& ready, Nanos const deadline) {
  if (!Active()) {
    return ready == nullptr || ready();
  }
  auto& e = *execution;
  int const me = self_id;
  Thread& t = *e.threads[me];
  t.ready = ready;
  t.deadline = deadline;
  int const next = PickNext();
  if (next != me) {
    SwitchTo(next);
    t.wake.acquire();
  }
  t.ready = nullptr;
  t.deadline = kNever;
  return ready == nullptr || ready();
}

void Point() {
  BlockUntil(nullptr, kNever);
}

void Block(std::function<bool()> const& ready) {
  BlockUntil(ready, kNever);
}

Nanos Now() {
  return execution == nullptr ? 0 : execution->now;
}

int Self() {
  return self_id;
}

int Spawn(std::function<void()> body) {
  if (!Active()) {
    std::fprintf(stderr, "Spawn outside of an execution\n");
    std::abort();
  }
  auto& e = *execution;
  int const id = e.threads.size();
  e.threads.push_back(std::make_unique<Thread>());
  Thread& t = *e.threads.back();
  t.os = std::thread([id, &t, body = std::move(body)]() mutable {
    self_id = id;
    t.wake.acquire();
    try {
      body();
      // The destruction of the state captured by the body is part of the
      // thread's execution.
      body = nullptr;
    } catch (CheckFailure const& failure) {
      Die(failure.what());
    } catch (std::exception const& exception) {
      Die(std::string("exception: ") + exception.what());
    }
    if (thread_exit_hook != nullptr) {
      thread_exit_hook();
    }
    t.finished = true;
    int const next = PickNext();
    SwitchTo(next);
  });
  return id;
}

bool Finished(int const id) {
  return execution->threads[id]->finished;
}

void JoinThread(int const id) {
  Block([id]() { return execution->threads[id]->finished; });
  if (execution->threads[id]->os.joinable()) {
    execution->threads[id]->os.join();
  }
}

void Record(std::string const& json) {
  if (shared == nullptr) {
    return;
  }
  int const size = json.size() + 3;
  if (shared->text_size + size >= kMaxText) {
    Finish(5);
  }
  char* p = shared->text + shared->text_size;
  if (shared->text_size > 0) {
    *p++ = ',';
  }
  *p++ = '{';
  std::memcpy(p, json.data(), json.size());
  p += json.size();
  *p++ = '}';
  shared->text_size = p - shared->text;
}

void Die(std::string const& message) {
  std::string clean;
  for (char const c : message) {
    clean += c == '"' || c == '\\' || c < 32 || c > 126 ? '_' : c;
  }
  Record("\"e\":\"died\",\"m\":\"" + clean.substr(0, 200) + "\"");
  Finish(2);
}

namespace {

void Run(Options const& options,
         std::vector<int> const& prefix,
         bool const random,
         double const switch_probability,
         std::uint64_t const seed,
         std::function<void()> const& scenario) {
  shared->text_size = 0;
  shared->choices_size = 0;
  shared->done = 0;
  pid_t const pid = fork();
  if (pid < 0) {
    std::perror("fork");
    std::exit(3);
  }
  if (pid == 0) {
    alarm(60);  // A hang outside of the control of the scheduler.
    execution = new Execution;
    execution->prefix = prefix;
    execution->random = random;
    execution->switch_probability = switch_probability;
    execution->rng.seed(seed);
    execution->max_steps = options.max_steps;
    execution->threads.push_back(std::make_unique<Thread>());
    self_id = 0;
    try {
      scenario();
    } catch (CheckFailure const& failure) {
      Die(failure.what());
    } catch (std::exception const& exception) {
      Die(std::string("exception: ") + exception.what());
    }
    Record("\"e\":\"end\"");
    Finish(1);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (shared->done == 0) {
    Record("\"e\":\"crash\",\"m\":\"status " + std::to_string(status) + "\"");
  } else if (shared->done == 3) {
    Record("\"e\":\"deadlock\"");
  } else if (shared->done == 4 || shared->done == 5) {
    Record("\"e\":\"limit\"");
  }
}

char const* Ending() {
  static char const* const names[] = {
      "crash", "end", "died", "deadlock", "limit", "limit"};
  return names[shared->done];
}

std::string Schedule() {
  std::string result;
  int last = -1;
  for (int i = 0; i < shared->choices_size; ++i) {
    if (shared->choices[i].chosen != 0) {
      last = i;
    }
  }
  for (int i = 0; i <= last; ++i) {
    result += (i == 0 ? "" : ",") + std::to_string(shared->choices[i].chosen);
  }
  return result;
}

void MakeShared() {
  if (shared == nullptr) {
    shared = static_cast<Shared*>(mmap(nullptr,
                                       sizeof(Shared),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS,
                                       -1,
                                       0));
    if (shared == MAP_FAILED) {
      std::perror("mmap");
      std::exit(3);
    }
  }
}

}  // namespace

Stats Explore(Options const& options,
              std::function<void()> const& scenario,
              std::function<void(std::string const& trace,
                                 std::string const& schedule,
                                 std::string const& ending)> const& emit) {
  MakeShared();
  Stats stats;
  std::unordered_set<std::string> seen;
  auto const start = std::chrono::steady_clock::now();
  auto const out_of_time = [&]() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() -
                                         start)
               .count() > options.seconds;
  };
  auto const collect = [&]() {
    ++stats.executions;
    stats.points += shared->choices_size;
    std::string const trace(shared->text, shared->text_size);
    if (seen.insert(trace).second) {
      ++stats.distinct;
      emit(trace, Schedule(), Ending());
    }
  };

  // Enumeration in order of increasing number of preemptions.
  for (int bound = 0; bound <= options.preemption_bound; ++bound) {
    std::vector<int> prefix;
    bool exhausted = false;
    int executions = 0;
    int const limit =
        bound == options.preemption_bound ? options.max_dfs : options.max_dfs;
    while (executions < limit && !out_of_time()) {
      Run(options, prefix, /*random=*/false, 0, 0, scenario);
      ++executions;
      collect();
      // Find the next prefix.
      int const n = shared->choices_size;
      std::vector<int> cost(n + 1, 0);
      for (int i = 0; i < n; ++i) {
        cost[i + 1] = cost[i] + (shared->choices[i].chosen >=
                                         shared->choices[i].free
                                     ? 1
                                     : 0);
      }
      bool found = false;
      for (int i = n - 1; i >= 0; --i) {
        auto const& c = shared->choices[i];
        int const next = c.chosen + 1;
        if (next < c.options && cost[i] + (next >= c.free ? 1 : 0) <= bound) {
          prefix.resize(i + 1);
          for (int j = 0; j < i; ++j) {
            prefix[j] = shared->choices[j].chosen;
          }
          prefix[i] = next;
          found = true;
          break;
        }
      }
      if (!found) {
        exhausted = true;
        break;
      }
    }
    stats.exhausted = exhausted;
    if (!exhausted) {
      break;
    }
  }

  for (int i = 0; i < options.max_random && !out_of_time(); ++i) {
    static constexpr double probabilities[] = {1.0, 0.5, 0.2, 0.05};
    Run(options,
        {},
        /*random=*/true,
        probabilities[i % 4],
        options.seed * 1'000'003 + i,
        scenario);
    collect();
  }
  return stats;
}

void Replay(std::string const& schedule,
            std::function<void()> const& scenario,
            std::function<void(std::string const& trace,
                               std::string const& schedule,
                               std::string const& ending)> const& emit) {
  MakeShared();
  std::vector<int> prefix;
  std::stringstream s(schedule);
  std::string item;
  while (std::getline(s, item, ',')) {
    prefix.push_back(std::stoi(item));
  }
  Run(Options{}, prefix, false, 0, 0, scenario);
  emit(std::string(shared->text, shared->text_size), Schedule(), Ending());
}

}  // namespace verif::sched
