// The main program of the sequential harnesses.  A harness provides a function
// that runs the scenario having a given index, driven by a random generator;
// this runs many of them in child processes (so that a crash is an observation)
// and writes their traces, one JSON object per line.
#pragma once

#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <optional>
#include <random>
#include <string>
#include <utility>
#include <vector>

namespace verif {

// A JSON value.
struct J {
  std::string text;

  J() : text("null") {}
  J(bool const b) : text(b ? "true" : "false") {}
  J(int const i) : text(std::to_string(i)) {}
  J(long const i) : text(std::to_string(i)) {}
  J(long long const i) : text(std::to_string(i)) {}
  J(unsigned const i) : text(std::to_string(i)) {}
  J(unsigned long const i) : text(std::to_string(i)) {}
  J(char const* const s) : J(std::string(s)) {}
  J(std::string const& s) {
    text = "\"";
    for (char const c : s) {
      if (c == '"' || c == '\\') {
        text += '\\';
        text += c;
      } else if (static_cast<unsigned char>(c) < 32) {
        text += ' ';
      } else {
        text += c;
      }
    }
    text += "\"";
  }
  template<typename T>
  J(std::vector<T> const& v) {
    text = "[";
    bool first = true;
    for (T const& t : v) {
      if (!first) text += ",";
      first = false;
      text += J(t).text;
    }
    text += "]";
  }
  J(std::initializer_list<std::pair<char const*, J>> const& fields) {
    text = "{";
    bool first = true;
    for (auto const& [name, value] : fields) {
      if (!first) text += ",";
      first = false;
      text += "\"" + std::string(name) + "\":" + value.text;
    }
    text += "}";
  }
};

using Fields = std::initializer_list<std::pair<char const*, J>>;

class SeqTrace {
 public:
  static constexpr std::size_t kSize = 16 << 20;
  static SeqTrace& Get() {
    static SeqTrace trace;
    return trace;
  }
  void Start(std::string const& cfg) {
    shared_->cfg_size = 0;
    shared_->size = 0;
    SetCfg(cfg);
  }
  void SetCfg(std::string const& cfg) {
    std::size_t const n = std::min(cfg.size(), sizeof(shared_->cfg) - 1);
    std::memcpy(shared_->cfg, cfg.data(), n);
    shared_->cfg_size = n;
  }
  void Add(std::string const& event) {
    if (shared_->size + event.size() + 2 > kSize) {
      std::fprintf(stderr, "trace too long\n");
      _exit(3);
    }
    if (shared_->size > 0) {
      shared_->events[shared_->size++] = ',';
    }
    std::memcpy(shared_->events + shared_->size, event.data(), event.size());
    shared_->size += event.size();
  }
  void SetIndex(std::int64_t const i) { shared_->index = i; }
  std::int64_t index() const { return shared_->index; }
  std::string cfg() const { return {shared_->cfg, shared_->cfg_size}; }
  std::string events() const { return {shared_->events, shared_->size}; }

 private:
  struct Shared {
    std::int64_t index;
    std::size_t cfg_size;
    char cfg[65536];
    std::size_t size;
    char events[kSize];
  };
  SeqTrace() {
    shared_ = static_cast<Shared*>(mmap(nullptr,
                                        sizeof(Shared),
                                        PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS,
                                        -1,
                                        0));
  }
  Shared* shared_;
};

// Records an event.
inline void Ev(char const* const e, Fields const& fields = {}) {
  std::string text = "{\"e\":\"" + std::string(e) + "\"";
  for (auto const& [name, value] : fields) {
    text += ",\"" + std::string(name) + "\":" + value.text;
  }
  SeqTrace::Get().Add(text + "}");
}

// Sets the configuration of the trace.
inline void Cfg(Fields const& fields) {
  SeqTrace::Get().SetCfg(J(fields).text);
}

class Rng {
 public:
  explicit Rng(std::uint64_t const seed) : engine_(seed) {}
  // In [0, n[.
  int operator()(int const n) {
    return n <= 0 ? 0 : static_cast<int>(engine_() % n);
  }
  // In [a, b].
  int operator()(int const a, int const b) { return a + (*this)(b - a + 1); }
  bool Chance(int const percent) { return (*this)(100) < percent; }

 private:
  std::mt19937_64 engine_;
};

// `run` runs the scenario with the given index; if `count` is nonnegative it is
// the number of scenarios, otherwise --count or --seconds limits the run.
inline int SeqMain(int argc,
                   char** argv,
                   std::function<void(std::int64_t index, Rng& rng)> const& run,
                   std::int64_t const count = -1) {
  std::string out;
  std::string replay;
  int worker = 0;
  int workers = 1;
  int timeout = 60;
  double seconds = 1e9;
  std::int64_t limit = count;
  std::uint64_t seed = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string const a = argv[i];
    std::string const v = argv[i + 1];
    if (a == "--out") out = v;
    else if (a == "--worker") worker = std::stoi(v);
    else if (a == "--workers") workers = std::stoi(v);
    else if (a == "--seed") seed = std::stoull(v);
    else if (a == "--seconds") seconds = std::stod(v);
    else if (a == "--count") limit = std::stoll(v);
    else if (a == "--timeout") timeout = std::stoi(v);
    else if (a == "--replay") replay = v;
    else if (a == "--schedule") continue;
    else { std::fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
  }
  if (count >= 0 && limit > count) {
    limit = count;
  }
  std::int64_t const only = replay.empty() ? -1 : std::stoll(replay);
  std::ofstream file;
  if (!out.empty()) {
    file.open(out);
  }
  std::ostream& os = out.empty() ? std::cout : file;
  auto& trace = SeqTrace::Get();
  auto const start = std::chrono::steady_clock::now();
  auto const emit = [&](std::string const& ending) {
    os << "{\"sc\":\"" << trace.index() << "\",\"schedule\":\"\",\"ending\":\""
       << ending << "\",\"cfg\":" << trace.cfg() << ",\"ev\":["
       << trace.events() << "]}\n";
    os.flush();
  };
  std::int64_t executions = 0;
  std::int64_t next = only >= 0 ? only : worker;
  while (limit < 0 || next < limit) {
    os.flush();
    trace.SetIndex(-1);
    pid_t const pid = fork();
    if (pid == 0) {
      for (std::int64_t i = next; limit < 0 || i < limit; i += workers) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() -
                                          start).count() > seconds) {
          break;
        }
        trace.SetIndex(i);
        trace.Start("{}");
        alarm(timeout);
        Rng rng(seed * 1'000'003 + i);
        std::string ending = "end";
        try {
          run(i, rng);
          Ev("end");
        } catch (std::exception const& e) {
          ending = "died";
          Ev("died", {{"m", std::string(e.what())}});
        }
        emit(ending);
        if (only >= 0) {
          break;
        }
        if (ending == "died") {
          // The state of the process may not be sound.
          alarm(0);
          _exit(42);
        }
      }
      alarm(0);
      _exit(0);
    }
    int status;
    waitpid(pid, &status, 0);
    if (only >= 0 || (WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
      if (trace.index() >= 0) {
        executions += (trace.index() - next) / workers + 1;
      }
      if (!WIFEXITED(status)) {
        Ev("crash", {{"m", "signal " + std::to_string(WTERMSIG(status))}});
        emit("crash");
      }
      break;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 42) {
      executions += (trace.index() - next) / workers + 1;
      next = trace.index() + workers;
      continue;
    }
    if (trace.index() < 0) {
      std::fprintf(stderr, "cannot start: status %d\n", status);
      return 3;
    }
    executions += (trace.index() - next) / workers + 1;
    Ev("crash",
       {{"m",
         WIFSIGNALED(status)
             ? "signal " + std::to_string(WTERMSIG(status))
             : "exit " + std::to_string(WEXITSTATUS(status))}});
    if (os.good()) {
      // The child may have moved the shared offset of the file.
      emit("crash");
    }
    next = trace.index() + workers;
  }
  os.flush();
  if (only < 0) {
    std::fprintf(stderr,
                 "STATS {\"executions\":%lld}\n",
                 static_cast<long long>(executions));
  }
  return 0;
}

}  // namespace verif
