// Drives physics/checkpointer from several threads.
#include <malloc.h>

#include "physics/checkpointer.hpp"

#include <thread>
#include <vector>

#include "sched_driver.hpp"
#include "serialization/testing_utilities.pb.h"

using namespace principia::geometry::_instant;
using namespace principia::physics::_checkpointer;
using namespace principia::quantities::_si;
using principia::serialization::CheckpointerTestMessage;
using verif::Ev;
using verif::F;
using verif::Scenario;

namespace {

using Checkpoint = CheckpointerTestMessage::Checkpoint;

thread_local int payload = 0;
thread_local std::string payloads;

Instant T(int const t) {
  return Instant() + t * Second;
}

struct Op {
  char kind;  // 'w', 'n', 'r' or 'l'.
  int t;
  int max = 0;
};

void RunOps(Checkpointer<CheckpointerTestMessage>& checkpointer,
            int const thread,
            std::vector<Op> const& ops) {
  std::string const h = F("h", thread);
  for (auto const& op : ops) {
    payload = 1000 * thread + op.t;
    payloads = "";
    switch (op.kind) {
      case 'w':
        Ev("write", h + "," + F("t", op.t) + "," + F("p", payload));
        checkpointer.WriteToCheckpoint(T(op.t));
        Ev("wrote", h + "," + F("r", 1));
        break;
      case 'n': {
        Ev("need",
           h + "," + F("t", op.t) + "," + F("max", op.max) + "," +
               F("p", payload));
        bool const r =
            checkpointer.WriteToCheckpointIfNeeded(T(op.t), op.max * Second);
        Ev("wrote", h + "," + F("r", r));
        break;
      }
      case 'r':
        Ev("read", h + "," + F("t", op.t));
        checkpointer.ReadFromCheckpointAt(T(op.t)).IgnoreError();
        Ev("have", h + ",\"ps\":[" + payloads + "]");
        break;
      case 'l': {
        Ev("list", h);
        std::string ts;
        for (auto const& t : checkpointer.all_checkpoints()) {
          ts += (ts.empty() ? "" : ",") +
                std::to_string(static_cast<int>((t - Instant()) / Second));
        }
        Ev("listed", h + ",\"ts\":[" + ts + "]");
        break;
      }
    }
  }
}

// The threads perform their operations after `initial` was performed, and then
// everything is read.
void Run(std::vector<Op> const& initial,
         std::vector<std::vector<Op>> const& threads) {
  mallopt(M_PERTURB, 0x5a);
  Checkpointer<CheckpointerTestMessage> checkpointer(
      [](auto const checkpoint) {
        verif::sched::Point();
        checkpoint->set_payload(payload);
        verif::sched::Point();
      },
      [](Checkpoint const& checkpoint) {
        payloads += (payloads.empty() ? "" : ",") +
                    std::to_string(checkpoint.payload());
        return absl::OkStatus();
      });
  RunOps(checkpointer, 0, initial);
  {
    std::vector<std::jthread> jthreads;
    for (int i = 0; i < threads.size(); ++i) {
      jthreads.emplace_back([&checkpointer, i, &threads]() {
        RunOps(checkpointer, i + 1, threads[i]);
      });
    }
  }
  std::vector<Op> final = {{'l', 0}};
  for (auto const& op : initial) {
    final.push_back({'r', op.t});
  }
  for (auto const& thread : threads) {
    for (auto const& op : thread) {
      final.push_back({'r', op.t});
    }
  }
  RunOps(checkpointer, 0, final);
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> scenarios;
  auto const add = [&](std::string const& name,
                       std::vector<Op> const& initial,
                       std::vector<std::vector<Op>> const& threads) {
    scenarios.push_back(
        {name, "", [initial, threads]() { Run(initial, threads); }});
  };
  for (int n = 1; n <= 4; ++n) {
    // The number of checkpoints matters to the way the map is reorganized.
    std::vector<Op> initial;
    for (int i = 0; i < n; ++i) {
      initial.push_back({'w', 10 + i});
    }
    std::string const s = std::to_string(n);
    add("readlast" + s, initial, {{{'w', 20}}, {{'r', 10 + n - 1}}});
    add("readfirst" + s, initial, {{{'w', 5}}, {{'r', 10}, {'l', 0}}});
    add("writewrite" + s, initial, {{{'w', 20}}, {{'w', 5}}});
    add("needneed" + s, initial, {{{'n', 20, 5}}, {{'n', 21, 5}, {'l', 0}}});
    add("mixed" + s, initial,
        {{{'n', 30, 3}, {'r', 10}}, {{'r', 10 + n - 1}, {'w', 1}}});
  }
  add("empty", {}, {{{'w', 1}, {'l', 0}}, {{'l', 0}, {'r', 7}}});
  add("emptyneed", {}, {{{'n', 1, 3}, {'n', 2, 3}}, {{'n', 5, 1}}});
  return verif::SchedMain(argc, argv, scenarios);
}
