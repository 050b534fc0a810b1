// Drives the reanimation of an ephemeris from several threads.
#include <chrono>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "ephemeris_ops.hpp"
#include "sched_driver.hpp"

using namespace verif;

namespace {

constexpr int kDays = 50;
constexpr int kSteps = 40;
EphemerisOptions const options{.step_days = kDays};

struct Op {
  // 'A': await, 'R': request, 'S': sleep, 'P': prolong.
  char kind;
  int t;
};

void RunOps(EphemerisFactory const& factory,
            Eph& ephemeris,
            int const thread,
            std::vector<Op> const& ops) {
  std::string const h = F("h", thread);
  for (auto const& op : ops) {
    switch (op.kind) {
      case 'A':
        Ev("await", h + "," + F("t", op.t));
        ephemeris.AwaitReanimation(factory.At(op.t));
        Ev("awaited", h + "," + F("min", factory.TimeText(ephemeris.t_min())));
        break;
      case 'R':
        Ev("request", h + "," + F("t", op.t));
        ephemeris.RequestReanimation(factory.At(op.t));
        Ev("requested", h);
        break;
      case 'P': {
        Ev("prolong", h + "," + F("t", op.t));
        bool const ok = ephemeris.Prolong(factory.At(op.t)).ok();
        Ev("prolonged",
           h + "," + F("ok", ok) + "," +
               F("max", factory.TimeText(ephemeris.t_max())));
        break;
      }
      case 'S':
        std::this_thread::sleep_for(std::chrono::milliseconds(op.t));
        break;
    }
  }
}

void Run(std::vector<std::vector<Op>> const& threads) {
  EphemerisFactory const factory(options);
  principia::serialization::Ephemeris message;
  {
    auto const original = factory.Make();
    original->Prolong(factory.At(kSteps)).IgnoreError();
    original->WriteToMessage(&message);
  }
  std::unique_ptr<Eph> ephemeris(
      Eph::ReadFromMessage(factory.At(kSteps), message));
  ephemeris->Prolong(factory.At(kSteps + 8)).IgnoreError();
  Ev("ready",
     F("min", factory.TimeText(ephemeris->t_min())) + "," +
         F("max", factory.TimeText(ephemeris->t_max())));
  {
    std::vector<std::jthread> jthreads;
    for (int i = 1; i < threads.size(); ++i) {
      jthreads.emplace_back([&factory, &ephemeris, i, &threads]() {
        RunOps(factory, *ephemeris, i + 1, threads[i]);
      });
    }
    RunOps(factory, *ephemeris, 1, threads[0]);
  }
  Ev("destroy", F("min", factory.TimeText(ephemeris->t_min())));
  ephemeris.reset();
  Ev("destroyed");
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> scenarios;
  auto const add = [&](std::string const& name,
                       std::vector<std::vector<Op>> const& threads) {
    scenarios.push_back({name,
                         F("days", kDays) + "," + F("steps", kSteps),
                         [threads]() { Run(threads); }});
  };
  // The checkpoints are at 1, 5, 9, ..., 37, and are restored at 37.
  add("one", {{{'A', 20}}});
  add("two", {{{'A', 20}}, {{'A', 5}}});
  add("both", {{{'A', 20}, {'A', 3}}, {{'A', 5}, {'A', 8}}});
  add("request", {{{'A', 8}}, {{'R', 32}}});
  add("request2", {{{'R', 0}, {'R', 30}}, {{'A', 8}}});
  add("request3", {{{'R', 2}, {'S', 30}, {'R', 33}}, {{'A', 16}}});
  add("requests", {{{'R', 0}, {'R', 34}, {'R', 0}}, {{'R', 30}, {'A', 8}}});
  add("three", {{{'A', 32}}, {{'A', 8}}, {{'R', 0}, {'R', 40}}});
  add("prolong", {{{'A', 8}}, {{'P', 60}, {'R', 30}, {'P', 70}}});
  add("prolong2", {{{'R', 20}, {'P', 56}}, {{'A', 16}, {'P', 64}}});
  add("leave", {{{'R', 0}}, {{'R', 20}, {'S', 20}}});
  add("sleep", {{{'A', 16}, {'S', 25}, {'A', 0}}, {{'S', 20}, {'R', 24}}});
  return verif::SchedMain(argc, argv, scenarios);
}
