// Drives base/bundle under the controlled scheduler.
#include "base/bundle.hpp"
#include "base/bundle.cpp"

#include "sched_driver.hpp"

using principia::base::_bundle::Bundle;
using verif::Ev;
using verif::F;
using verif::Scenario;

namespace {

struct Task {
  int code;   // Status code.
  int points; // Number of scheduling points in the task.
  int sleep;  // Virtual duration, in ms.
};

// -1: plain join; otherwise, a time limit in ms.
struct Join {
  std::string kind;
  int limit;
};

// The tasks executed by the current thread.
thread_local std::vector<int> tasks_of_thread;

void RunBundle(std::vector<Task> const& tasks, Join const& join) {
  // Upon exit of a thread, tells that whatever it does for its tasks is over.
  verif::sched::thread_exit_hook = []() {
    for (int const t : tasks_of_thread) {
      Ev("exit", F("t", t));
    }
  };
  Bundle bundle;
  for (int i = 0; i < tasks.size(); ++i) {
    Ev("add", F("t", i));
    bundle.Add([i, task = tasks[i]]() {
      tasks_of_thread.push_back(i);
      Ev("start", F("t", i));
      for (int p = 0; p < task.points; ++p) {
        verif::sched::Point();
      }
      if (task.sleep > 0) {
        std::this_thread::sleep_for(std::chrono::milliseconds(task.sleep));
      }
      Ev("fin", F("t", i) + "," + F("s", task.code));
      return task.code == 0
                 ? absl::OkStatus()
                 : absl::Status(static_cast<absl::StatusCode>(task.code),
                                "task " + std::to_string(i));
    });
  }
  Ev("join", F("k", join.kind) + "," + F("d", join.limit));
  absl::Status status;
  if (join.kind == "plain") {
    status = bundle.Join();
  } else if (join.kind == "within") {
    status = bundle.JoinWithin(std::chrono::milliseconds(join.limit));
  } else {
    status = bundle.JoinBefore(std::chrono::system_clock::time_point(
        std::chrono::duration_cast<std::chrono::system_clock::duration>(
            std::chrono::nanoseconds(verif::sched::Now())) +
        std::chrono::milliseconds(join.limit)));
  }
  Ev("joined", F("s", static_cast<int>(status.code())));
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> scenarios;
  auto const add = [&](std::vector<Task> const& tasks, Join const& join) {
    std::string name = join.kind + std::to_string(join.limit);
    for (auto const& t : tasks) {
      name += "-" + std::to_string(t.code) + "." + std::to_string(t.points) +
              "." + std::to_string(t.sleep);
    }
    scenarios.push_back(
        {name, "", [tasks, join]() { RunBundle(tasks, join); },
         tasks.size() == 0 ? 0.1 : tasks.size() == 3 ? 3.0 : 1.0});
  };
  std::vector<Join> const joins = {
      {"plain", 0}, {"within", 0}, {"within", 10}, {"before", 10}};
  for (auto const& join : joins) {
    add({}, join);
    add({{0, 0, 0}}, join);
    add({{5, 1, 10}}, join);
    add({{0, 0, 20}}, join);
    add({{0, 0, 0}, {0, 0, 0}}, join);
    add({{5, 0, 0}, {7, 0, 0}}, join);
    add({{5, 0, 0}, {0, 1, 20}}, join);
    add({{0, 0, 0}, {0, 0, 20}}, join);
    add({{0, 0, 10}, {7, 0, 5}}, join);
    add({{0, 0, 0}, {5, 0, 0}, {7, 0, 0}}, join);
    add({{0, 0, 0}, {0, 0, 20}, {0, 0, 0}}, join);
    add({{5, 0, 5}, {7, 0, 10}, {0, 0, 15}}, join);
  }
  return verif::SchedMain(argc, argv, scenarios);
}
