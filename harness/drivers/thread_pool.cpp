// Drives base/thread_pool under the controlled scheduler.
#include "base/thread_pool.hpp"

#include <map>
#include <random>

#include "sched_driver.hpp"

using principia::base::_thread_pool::ThreadPool;
using verif::Ev;
using verif::F;
using verif::Scenario;

namespace {

struct Op {
  char kind;  // A: Add, T: TryAdd, W: WaitUntilIdleFor, G: get, S: sleep.
  int arg;    // Call, duration, call, duration.
  int points = 0;
  int sleep = 0;  // For A and T, the behaviour of the call.
};
using Script = std::vector<Op>;

void RunScript(ThreadPool<std::int64_t>& pool,
               int const client,
               Script const& script,
               std::map<int, std::future<std::int64_t>>& futures) {
  for (auto const& op : script) {
    auto const function = [op]() -> std::int64_t {
      Ev("start", F("t", op.arg));
      for (int p = 0; p < op.points; ++p) {
        verif::sched::Point();
      }
      if (op.sleep > 0) {
        std::this_thread::sleep_for(std::chrono::milliseconds(op.sleep));
      }
      Ev("fin", F("t", op.arg));
      return 100 + op.arg;
    };
    auto const c = F("c", client) + ",";
    switch (op.kind) {
      case 'A':
        Ev("add", c + F("t", op.arg));
        futures.emplace(op.arg, pool.Add(function));
        Ev("added", c + F("t", op.arg));
        break;
      case 'T': {
        Ev("try", c + F("t", op.arg));
        auto result = pool.TryAdd(function);
        Ev("tried", c + F("t", op.arg) + "," + F("r", result.has_value()));
        if (result.has_value()) {
          futures.emplace(op.arg, std::move(*result));
        }
        break;
      }
      case 'W': {
        Ev("wait", c + F("d", op.arg));
        bool const r = pool.WaitUntilIdleFor(absl::Milliseconds(op.arg));
        Ev("waited", c + F("r", r));
        break;
      }
      case 'G': {
        auto const it = futures.find(op.arg);
        if (it != futures.end() && it->second.valid()) {
          Ev("get", c + F("t", op.arg));
          auto const v = it->second.get();
          Ev("got", c + F("t", op.arg) + "," + F("v", v));
        }
        break;
      }
      case 'S':
        std::this_thread::sleep_for(std::chrono::milliseconds(op.arg));
        break;
    }
  }
}

void RunPool(int const size, std::vector<Script> const& scripts) {
  std::vector<std::map<int, std::future<std::int64_t>>> futures(scripts.size());
  {
    ThreadPool<std::int64_t> pool(size);
    {
      std::vector<std::thread> clients;
      for (int c = 1; c < scripts.size(); ++c) {
        clients.emplace_back(
            [&, c]() { RunScript(pool, c, scripts[c], futures[c]); });
      }
      RunScript(pool, 0, scripts[0], futures[0]);
      for (auto& client : clients) {
        client.join();
      }
    }
    Ev("destroy");
  }
  Ev("destroyed");
  for (auto& fs : futures) {
    for (auto& [t, future] : fs) {
      if (future.valid()) {
        int v;
        try {
          v = future.get();
        } catch (std::future_error const& e) {
          v = e.code() == std::future_errc::broken_promise ? -1 : -2;
        }
        Ev("result", F("t", t) + "," + F("v", v));
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> scenarios;
  auto const add = [&](std::string const& name,
                       int const size,
                       std::vector<Script> const& scripts) {
    scenarios.push_back({name,
                         F("size", size),
                         [size, scripts]() { RunPool(size, scripts); }});
  };
  for (int size = 1; size <= 3; ++size) {
    std::string const s = std::to_string(size) + "-";
    add(s + "empty", size, {{}});
    add(s + "drop", size, {{{'A', 0}, {'A', 1}, {'A', 2, 1}}});
    add(s + "get", size, {{{'A', 0}, {'A', 1, 1}, {'G', 1}, {'G', 0}}});
    add(s + "try", size,
        {{{'T', 0, 1}, {'T', 1, 1}, {'G', 0}, {'T', 2}, {'G', 2}, {'G', 1}}});
    add(s + "trysleep", size,
        {{{'T', 0, 0, 10}, {'T', 1, 0, 5}, {'S', 7}, {'T', 2}, {'T', 3, 0, 20},
          {'W', 4}, {'W', 30}}});
    add(s + "wait0", size, {{{'W', 0}, {'A', 0, 0, 3}, {'W', 0}, {'W', 5}}});
    add(s + "wait", size,
        {{{'A', 0, 0, 10}, {'A', 1, 0, 10}, {'W', 5}, {'W', 10}, {'T', 2},
          {'W', 40}, {'T', 3}}});
    add(s + "addtry", size,
        {{{'A', 0}, {'T', 1}, {'A', 2}, {'T', 3}, {'G', 2}}});
    add(s + "two", size,
        {{{'A', 0}, {'A', 1}, {'G', 1}}, {{'A', 2}, {'G', 2}}});
    add(s + "twotry", size,
        {{{'T', 0}, {'T', 1}}, {{'T', 2}, {'T', 3}}});
    add(s + "twomixed", size,
        {{{'A', 0, 1}, {'G', 0}, {'T', 1}, {'G', 1}},
         {{'W', 3}, {'T', 2, 0, 2}, {'W', 3}}});
    add(s + "three", size, {{{'T', 0}}, {{'T', 1}}, {{'T', 2}}});
  }
  // Random programs.
  char const* const env = std::getenv("VERIF_SEED");
  int const seed = env == nullptr ? 1 : std::atoi(env);
  std::mt19937 random(seed);
  auto const pick = [&](int n) { return static_cast<int>(random() % n); };
  for (int i = 0; i < 60; ++i) {
    int const size = 1 + pick(3);
    std::vector<Script> scripts(1 + pick(2));
    int call = 0;
    for (auto& script : scripts) {
      std::vector<int> mine;
      int const length = 2 + pick(5);
      for (int k = 0; k < length; ++k) {
        switch (pick(7)) {
          case 0: case 1:
            mine.push_back(call);
            script.push_back({'A', call++, pick(2), pick(3) == 0 ? 5 : 0});
            break;
          case 2: case 3:
            mine.push_back(call);
            script.push_back({'T', call++, pick(2), pick(3) == 0 ? 5 : 0});
            break;
          case 4:
            script.push_back({'W', 4 * pick(3)});
            break;
          case 5:
            if (!mine.empty()) {
              script.push_back({'G', mine[pick(mine.size())]});
            }
            break;
          case 6:
            script.push_back({'S', 3 + pick(4)});
            break;
        }
      }
    }
    add("random" + std::to_string(seed) + "-" + std::to_string(i),
        size, scripts);
  }
  return verif::SchedMain(argc, argv, scenarios);
}
