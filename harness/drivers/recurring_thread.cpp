// Drives base/recurring_thread under the controlled scheduler.
#include "base/recurring_thread.hpp"

#include <memory>
#include <random>

#include "sched_driver.hpp"

using principia::base::_recurring_thread::RecurringThread;
using principia::base::_stoppable_thread::this_stoppable_thread;
using verif::Ev;
using verif::F;
using verif::Scenario;

namespace {

constexpr int kPeriod = 10;

struct Op {
  char kind;  // B: start, E: stop, R: restart, P: put, G: get, S: sleep.
  int arg = 0;    // P: input, S: duration.
  // P: the behaviour of the action for that input.
  int points = 0;
  int sleep = 0;
  bool error = false;
};
using Script = std::vector<Op>;

template<typename Thread>
void RunScript(Thread& thread, int const client, Script const& script) {
  for (auto const& op : script) {
    auto const c = F("c", client);
    switch (op.kind) {
      case 'B':
        Ev("start", c);
        thread.Start();
        Ev("started", c);
        break;
      case 'E':
        Ev("stop", c);
        thread.Stop();
        Ev("stopped", c);
        break;
      case 'R':
        Ev("restart", c);
        thread.Restart();
        Ev("restarted", c);
        break;
      case 'P':
        Ev("put", c + "," + F("v", op.arg));
        thread.Put(op);
        Ev("putted", c);
        break;
      case 'G':
        if constexpr (requires { thread.Get(); }) {
          Ev("get", c);
          auto const r = thread.Get();
          Ev("got", c + "," + F("v", r.has_value() ? *r : -1));
        }
        break;
      case 'S':
        std::this_thread::sleep_for(std::chrono::milliseconds(op.arg));
        break;
    }
  }
}

bool Act(Op const& op) {
  Ev("act", F("v", op.arg));
  for (int p = 0; p < op.points; ++p) {
    verif::sched::Point();
  }
  if (op.sleep > 0) {
    std::this_thread::sleep_for(std::chrono::milliseconds(op.sleep));
  }
  bool const stopped =
      this_stoppable_thread::get_stop_token().stop_requested();
  Ev("fin", F("v", op.arg) + "," + F("ok", !op.error) + "," + F("st", stopped));
  return !op.error;
}

void RunThread(bool const with_output, std::vector<Script> const& scripts) {
  auto const run = [&](auto& thread) {
    std::vector<std::thread> clients;
    for (int c = 1; c < scripts.size(); ++c) {
      clients.emplace_back([&, c]() { RunScript(thread, c, scripts[c]); });
    }
    RunScript(thread, 0, scripts[0]);
    for (auto& client : clients) {
      client.join();
    }
  };
  if (with_output) {
    auto thread = std::make_unique<RecurringThread<Op, std::int64_t>>(
        [](Op const op) -> absl::StatusOr<std::int64_t> {
          if (Act(op)) {
            return 1000 + op.arg;
          } else {
            return absl::UnknownError("no");
          }
        },
        std::chrono::milliseconds(kPeriod));
    run(*thread);
    Ev("destroy");
    thread.reset();
    Ev("destroyed");
  } else {
    auto thread = std::make_unique<RecurringThread<Op>>(
        [](Op const op) {
          return Act(op) ? absl::OkStatus() : absl::UnknownError("no");
        },
        std::chrono::milliseconds(kPeriod));
    run(*thread);
    Ev("destroy");
    thread.reset();
    Ev("destroyed");
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> scenarios;
  auto const add = [&](std::string const& name,
                       std::vector<Script> const& scripts) {
    for (bool const with_output : {true, false}) {
      scenarios.push_back(
          {name + (with_output ? "-o" : "-v"),
           F("period", kPeriod) + "," + F("output", with_output),
           [with_output, scripts]() { RunThread(with_output, scripts); }});
    }
  };
  add("basic", {{{'B'}, {'P', 1}, {'S', 15}, {'G'}, {'G'}, {'E'}}});
  add("destroy", {{{'B'}, {'P', 1, 1}}});
  add("destroysleep", {{{'B'}, {'P', 1, 0, 7}, {'S', 13}}});
  add("never", {{{'P', 1}, {'G'}, {'E'}, {'G'}}});
  add("overwrite", {{{'P', 1}, {'B'}, {'P', 2}, {'S', 12}, {'G'}}});
  add("overoutput",
      {{{'B'}, {'P', 1}, {'S', 12}, {'P', 2}, {'S', 12}, {'G'}, {'G'}}});
  add("error",
      {{{'B'}, {'P', 1}, {'S', 12}, {'P', 2, 1, 0, true}, {'S', 12}, {'G'},
        {'G'}}});
  add("stopinaction", {{{'P', 1, 2}, {'B'}, {'E'}, {'G'}, {'B'}, {'S', 12},
                        {'G'}}});
  add("stopduringsleep",
      {{{'P', 1, 0, 25}, {'B'}, {'S', 5}, {'E'}, {'G'}, {'P', 2}, {'B'},
        {'S', 12}, {'G'}}});
  add("restart", {{{'B'}, {'P', 1, 1}, {'R'}, {'S', 11}, {'G'}, {'R'}, {'E'},
                   {'R'}, {'G'}}});
  add("restartlong",
      {{{'B'}, {'P', 1, 0, 33}, {'S', 5}, {'P', 2}, {'R'}, {'S', 11}, {'G'}}});
  add("idempotent", {{{'B'}, {'B'}, {'P', 1}, {'S', 15}, {'G'}, {'E'}, {'E'}}});
  add("survives", {{{'B'}, {'P', 1}, {'S', 11}, {'E'}, {'P', 2}, {'G'}, {'B'},
                    {'S', 11}, {'G'}}});
  add("putgets", {{{'B'}, {'P', 1}, {'P', 2, 1}, {'G'}, {'P', 3}, {'G'}}});
  add("twoclients", {{{'B'}, {'P', 1, 1}, {'G'}}, {{'P', 2}, {'G'}}});
  add("twocontrols", {{{'B'}, {'P', 1, 1}, {'E'}, {'G'}}, {{'R'}, {'E'}}});
  add("twostarts", {{{'B'}, {'P', 1}, {'E'}}, {{'B'}, {'P', 2}, {'E'}}});
  add("tworestarts", {{{'R'}, {'P', 1, 1}, {'R'}}, {{'R'}, {'P', 2, 1}, {'B'}}});
  char const* const env = std::getenv("VERIF_SEED");
  int const seed = env == nullptr ? 1 : std::atoi(env);
  std::mt19937 random(seed);
  auto const pick = [&](int n) { return static_cast<int>(random() % n); };
  for (int i = 0; i < 40; ++i) {
    std::vector<Script> scripts(1 + pick(2));
    int input = 0;
    for (auto& script : scripts) {
      int const length = 3 + pick(6);
      for (int k = 0; k < length; ++k) {
        switch (pick(9)) {
          case 0:
            script.push_back({'B'});
            break;
          case 1:
            script.push_back({'E'});
            break;
          case 2:
            script.push_back({'R'});
            break;
          case 3: case 4: case 5:
            script.push_back({'P', ++input, pick(2),
                              pick(3) == 0 ? 3 + 4 * pick(4) : 0,
                              pick(4) == 0});
            break;
          case 6: case 7:
            script.push_back({'G'});
            break;
          case 8:
            script.push_back({'S', 4 + 5 * pick(3)});
            break;
        }
      }
    }
    add("random" + std::to_string(seed) + "-" + std::to_string(i), scripts);
  }
  return verif::SchedMain(argc, argv, scenarios);
}
