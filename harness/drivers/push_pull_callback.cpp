// Drives base/push_pull_callback under the controlled scheduler.
#include "base/push_pull_callback.hpp"

#include <random>

#include "sched_driver.hpp"

using principia::base::_push_pull_callback::PushPullCallback;
using principia::base::_push_pull_callback::PushPullExecutor;
using verif::Ev;
using verif::F;
using verif::Scenario;

namespace {

struct Step {
  int points;
  int sleep;
};

void Pause(Step const& step) {
  for (int p = 0; p < step.points; ++p) {
    verif::sched::Point();
  }
  if (step.sleep > 0) {
    std::this_thread::sleep_for(std::chrono::milliseconds(step.sleep));
  }
}

// The task does one call per element of `task`, except for the last one; the
// client does `pulls` pulls at least, and goes on until the task has finished.
void RunExecutor(std::vector<Step> const& task,
                 std::vector<Step> const& client,
                 int const extra_pulls) {
  {
    PushPullExecutor<std::int64_t, std::int64_t, std::int64_t, std::string>
        executor([&task](std::function<std::int64_t(std::int64_t, std::string)>
                             callback) {
          Ev("begin");
          std::int64_t sum = 0;
          for (int i = 0; i < task.size(); ++i) {
            Pause(task[i]);
            if (i + 1 < task.size()) {
              Ev("call", F("i", i));
              auto const v = callback(i, std::to_string(10 * i));
              Ev("ret", F("v", v));
              sum += v;
            }
          }
          Ev("fin", F("v", sum));
          return sum;
        });
    int falses = 0;
    for (int k = 0; falses <= extra_pulls; ++k) {
      if (!client.empty()) {
        Pause(client[k % client.size()]);
      }
      std::int64_t a = -1;
      std::string b = "-1";
      Ev("pull");
      bool const r = executor.callback().Pull(a, b);
      Ev("pulled", F("r", r) + "," + F("a", a) + "," + F("b", std::stoi(b)));
      if (r) {
        std::int64_t const v = 7 * a + k;
        Ev("push", F("v", v));
        executor.callback().Push(v);
        Ev("pushed");
      } else {
        ++falses;
        if (falses == 1) {
          auto const v = executor.get();
          Ev("got", F("v", v));
        }
      }
    }
    Ev("destroy");
  }
  Ev("destroyed");
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> scenarios;
  auto const add = [&](std::vector<Step> const& task,
                       std::vector<Step> const& client,
                       int const extra_pulls) {
    std::string name = "e" + std::to_string(extra_pulls);
    for (auto const& s : task) {
      name += "-" + std::to_string(s.points) + "." + std::to_string(s.sleep);
    }
    name += "/";
    for (auto const& s : client) {
      name += "-" + std::to_string(s.points) + "." + std::to_string(s.sleep);
    }
    scenarios.push_back({name, "", [=]() {
                           RunExecutor(task, client, extra_pulls);
                         }});
  };
  for (int e = 0; e < 2; ++e) {
    add({{0, 0}}, {}, e);
    add({{0, 0}, {0, 0}}, {}, e);
    add({{0, 0}, {1, 0}, {0, 0}}, {}, e);
    add({{0, 0}, {0, 0}, {0, 0}, {0, 0}}, {}, e);
    add({{0, 5}, {0, 0}}, {{0, 3}}, e);
    add({{0, 0}, {0, 5}, {0, 2}}, {{0, 3}, {0, 0}}, e);
    add({{0, 0}, {1, 0}, {0, 0}}, {{1, 0}}, e);
    add({{0, 20}}, {{0, 1}}, e);
  }
  char const* const env = std::getenv("VERIF_SEED");
  std::mt19937 random(env == nullptr ? 1 : std::atoi(env));
  for (int i = 0; i < 16; ++i) {
    std::vector<Step> task(1 + random() % 5);
    std::vector<Step> client(random() % 3);
    for (auto* steps : {&task, &client}) {
      for (auto& s : *steps) {
        s = {static_cast<int>(random() % 2),
             random() % 3 == 0 ? static_cast<int>(random() % 5) : 0};
      }
    }
    add(task, client, random() % 2);
  }
  return verif::SchedMain(argc, argv, scenarios);
}
