// The main program of the harnesses that run under the controlled scheduler.
// A harness lists scenarios; this explores the schedules of each of them and
// writes the distinct traces, one JSON object per line.
#pragma once

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>

#include "sched.hpp"

namespace verif {

struct Scenario {
  std::string name;
  std::string cfg;  // The text of a JSON object, without its braces.
  std::function<void()> body;
  double weight = 1;
};

// Virtual time in milliseconds since the beginning of the execution.
inline std::int64_t NowMs() {
  return (sched::Now() - 1'000'000'000'000) / 1'000'000;
}

// Records an event.  `fields` is either empty or the text of the other fields.
inline void Ev(std::string const& e, std::string const& fields = "") {
  sched::Record("\"e\":\"" + e + "\",\"n\":" + std::to_string(NowMs()) +
                (fields.empty() ? "" : "," + fields));
}
inline std::string F(std::string const& name, std::int64_t const value) {
  return "\"" + name + "\":" + std::to_string(value);
}
inline std::string F(std::string const& name, std::string const& value) {
  return "\"" + name + "\":\"" + value + "\"";
}

inline int SchedMain(int argc,
                     char** argv,
                     std::vector<Scenario> const& scenarios) {
  std::string out;
  std::string replay_name;
  std::string replay_schedule;
  int worker = 0;
  int workers = 1;
  double seconds = 10;
  sched::Options options;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string const a = argv[i];
    std::string const v = argv[i + 1];
    if (a == "--out") out = v;
    else if (a == "--worker") worker = std::stoi(v);
    else if (a == "--workers") workers = std::stoi(v);
    else if (a == "--seed") options.seed = std::stoull(v);
    else if (a == "--seconds") seconds = std::stod(v);
    else if (a == "--bound") options.preemption_bound = std::stoi(v);
    else if (a == "--dfs") options.max_dfs = std::stoi(v);
    else if (a == "--random") options.max_random = std::stoi(v);
    else if (a == "--replay") replay_name = v;
    else if (a == "--schedule") replay_schedule = v;
    else { std::fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
  }
  std::ofstream file;
  if (!out.empty()) {
    file.open(out);
  }
  std::ostream& os = out.empty() ? std::cout : file;
  double total_weight = 0;
  for (int i = worker; i < scenarios.size(); i += workers) {
    total_weight += scenarios[i].weight;
  }
  std::int64_t executions = 0;
  std::int64_t distinct = 0;
  std::int64_t points = 0;
  int exhausted = 0;
  int run = 0;
  for (int i = 0; i < scenarios.size(); ++i) {
    auto const& scenario = scenarios[i];
    auto const emit = [&](std::string const& trace,
                          std::string const& schedule,
                          std::string const& ending) {
      os << "{\"sc\":\"" << scenario.name << "\",\"cfg\":{" << scenario.cfg
         << "},\"ending\":\"" << ending << "\",\"schedule\":\"" << schedule
         << "\",\"ev\":[" << trace << "]}\n";
    };
    if (!replay_name.empty()) {
      if (scenario.name == replay_name) {
        sched::Replay(replay_schedule, scenario.body, emit);
      }
      continue;
    }
    if (i % workers != worker) {
      continue;
    }
    options.seconds = seconds * scenario.weight / total_weight;
    auto const stats = sched::Explore(options, scenario.body, emit);
    ++run;
    executions += stats.executions;
    distinct += stats.distinct;
    points += stats.points;
    exhausted += stats.exhausted ? 1 : 0;
  }
  os.flush();
  if (replay_name.empty()) {
    std::fprintf(stderr,
                 "STATS {\"scenarios\":%d,\"executions\":%lld,"
                 "\"distinct\":%lld,\"points\":%lld,\"exhausted\":%d}\n",
                 run,
                 static_cast<long long>(executions),
                 static_cast<long long>(distinct),
                 static_cast<long long>(points),
                 exhausted);
  }
  return 0;
}

}  // namespace verif
