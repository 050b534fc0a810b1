// Drives physics/protector and physics/clientele from several threads.
#include <malloc.h>

#include "physics/clientele.hpp"
#include "physics/protector.hpp"
#include "physics/protector.cpp"

#include <memory>
#include <thread>
#include <vector>

#include "sched_driver.hpp"

using namespace principia::geometry::_instant;
using namespace principia::physics::_clientele;
using namespace principia::physics::_protector;
using namespace principia::quantities::_si;
using verif::Ev;
using verif::F;
using verif::Scenario;

namespace {

thread_local int self = 0;

std::string H() {
  return F("h", self);
}

Instant T(int const t) {
  return Instant() + t * Second;
}

// A protection, the end of a protection, or a callback which itself performs
// operations.
struct Op {
  char kind;  // 'p', 'u' or 'r'.
  int t;
  int id = 0;
  std::vector<Op> ops = {};
};
using Ops = std::vector<Op>;

void RunOps(Protector& protector, Ops const& ops) {
  for (auto const& op : ops) {
    switch (op.kind) {
      case 'p':
        Ev("protect", H() + "," + F("t", op.t));
        protector.Protect(T(op.t));
        Ev("protected", H());
        break;
      case 'u':
        Ev("unprotect", H() + "," + F("t", op.t));
        protector.Unprotect(T(op.t));
        Ev("unprotected", H());
        break;
      case 'r': {
        Ev("run", H() + "," + F("id", op.id) + "," + F("t", op.t));
        bool const r =
            protector.RunWhenUnprotected(T(op.t), [&protector, op]() {
              Ev("begin", H() + "," + F("id", op.id));
              RunOps(protector, op.ops);
              Ev("finish", H() + "," + F("id", op.id));
            });
        Ev("ran", H() + "," + F("r", r));
        break;
      }
    }
  }
}

void RunProtector(Ops const& before,
                  std::vector<Ops> const& threads,
                  Ops const& after) {
  mallopt(M_PERTURB, 0x5a);
  self = 0;
  Protector protector;
  RunOps(protector, before);
  {
    std::vector<std::jthread> jthreads;
    for (int i = 0; i < threads.size(); ++i) {
      jthreads.emplace_back([&protector, i, &threads]() {
        self = i + 1;
        RunOps(protector, threads[i]);
      });
    }
  }
  RunOps(protector, after);
}

// 'j': a client joins; 'l': the oldest client of this thread leaves; 'f': the
// first client is queried.
struct ClientOp {
  char kind;
  int x = 0;
};
using ClientOps = std::vector<ClientOp>;

void RunClientOps(Clientele<Instant>& clientele, ClientOps const& ops) {
  struct Member {
    int x;
    std::unique_ptr<Client<Instant>> client;
  };
  std::vector<Member> members;
  auto const leave = [&]() {
    Ev("leave", H() + "," + F("x", members.front().x));
    int const x = members.front().x;
    members.front().client.reset();
    members.erase(members.begin());
    Ev("left", H() + "," + F("x", x));
  };
  for (auto const& op : ops) {
    switch (op.kind) {
      case 'j':
        Ev("join", H() + "," + F("x", op.x));
        members.push_back(
            {op.x, std::make_unique<Client<Instant>>(T(op.x), clientele)});
        Ev("joined", H() + "," + F("x", op.x));
        break;
      case 'l':
        leave();
        break;
      case 'f': {
        Ev("first", H());
        Instant const first = clientele.first();
        Ev("firsted",
           H() + "," +
               F("r",
                 static_cast<std::int64_t>((first - Instant()) / Second)));
        break;
      }
    }
  }
  while (!members.empty()) {
    leave();
  }
}

void RunClientele(ClientOps const& before, std::vector<ClientOps> const& threads) {
  mallopt(M_PERTURB, 0x5a);
  self = 0;
  Clientele<Instant> clientele(T(99));
  {
    std::vector<std::jthread> jthreads;
    for (int i = 0; i < threads.size(); ++i) {
      jthreads.emplace_back([&clientele, i, &threads]() {
        self = i + 1;
        RunClientOps(clientele, threads[i]);
      });
    }
    RunClientOps(clientele, before);
  }
  self = 0;
  RunClientOps(clientele, {{'f'}});
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> scenarios;
  auto const protector = [&](std::string const& name,
                             Ops const& before,
                             std::vector<Ops> const& threads,
                             Ops const& after) {
    scenarios.push_back(
        {"p" + name, "\"c\":\"p\"", [before, threads, after]() {
           RunProtector(before, threads, after);
         }});
  };
  auto const clientele = [&](std::string const& name,
                             ClientOps const& before,
                             std::vector<ClientOps> const& threads) {
    scenarios.push_back({"c" + name, "\"c\":\"c\"", [before, threads]() {
                           RunClientele(before, threads);
                         }});
  };

  // Sequential behaviour: all the sequences of a few operations.
  {
    std::vector<Op> const menu = {{'p', 1}, {'p', 2}, {'u', 1}, {'u', 2},
                                  {'r', 1}, {'r', 2}, {'r', 3}};
    int const n = menu.size();
    int const length = 5;
    std::vector<int> digits(length, 0);
    for (;;) {
      Ops ops;
      int count[4] = {};
      bool valid = true;
      std::string name;
      for (int i = 0; i < length; ++i) {
        Op op = menu[digits[i]];
        op.id = i + 1;
        name += std::string(1, op.kind) + std::to_string(op.t);
        if (op.kind == 'p') {
          ++count[op.t];
        } else if (op.kind == 'u') {
          valid &= --count[op.t] >= 0;
        }
        ops.push_back(op);
      }
      if (valid) {
        Ops after;
        for (int t : {2, 1}) {
          for (; count[t] > 0; --count[t]) {
            after.push_back({'u', t});
          }
        }
        protector("seq" + name, ops, {}, after);
        scenarios.back().weight = 0.001;
      }
      int i = 0;
      for (; i < length && ++digits[i] == n; ++i) {
        digits[i] = 0;
      }
      if (i == length) {
        break;
      }
    }
  }
  protector("order", {{'p', 1}, {'r', 5, 1}, {'r', 3, 2}, {'r', 4, 3},
                      {'r', 3, 4}, {'p', 4}},
            {}, {{'u', 1}, {'u', 4}});
  // Concurrency.
  protector("race1", {{'p', 1}}, {{{'u', 1}}, {{'r', 2, 1}}}, {});
  protector("race2", {{'p', 1}}, {{{'u', 1}}, {{'r', 2, 1}, {'r', 1, 2}}}, {});
  protector("race3", {{'p', 1}, {'p', 3}, {'r', 2, 1}, {'r', 4, 2}},
            {{{'u', 1}}, {{'u', 3}}}, {});
  protector("race4", {{'p', 1}, {'p', 1}, {'r', 2, 1}},
            {{{'u', 1}}, {{'u', 1}}, {{'r', 3, 2}}}, {});
  protector("race5", {{'p', 1}, {'r', 2, 1}},
            {{{'u', 1}}, {{'p', 0}, {'u', 0}}}, {});
  protector("race6", {}, {{{'p', 1}, {'u', 1}}, {{'r', 2, 1}, {'r', 3, 2}}},
            {});
  protector("race7", {{'p', 2}},
            {{{'p', 1}, {'u', 2}, {'r', 3, 1}}, {{'r', 2, 2}, {'r', 3, 3}}},
            {{'u', 1}});
  // Callbacks that use the protector.
  protector("nested1", {{'p', 1}, {'r', 2, 1, {{'r', 3, 2}}}}, {}, {{'u', 1}});
  protector("nested2", {{'p', 1}, {'r', 2, 1, {{'p', 0}, {'u', 0}}}}, {},
            {{'u', 1}});
  protector("nested3",
            {{'p', 1}, {'p', 5}, {'r', 6, 4},
             {'r', 2, 1, {{'r', 3, 2}, {'u', 5}}}, {'r', 3, 3}},
            {}, {{'u', 1}});
  protector("nested4", {{'p', 1}, {'r', 2, 1, {{'p', 3}, {'r', 4, 2}}}},
            {{{'u', 1}}, {{'r', 2, 3}}}, {{'u', 3}});
  protector("nested5",
            {{'p', 1}, {'r', 2, 1, {{'p', 1}, {'r', 2, 2}}}, {'r', 3, 3}},
            {{{'u', 1}}}, {{'u', 1}});

  for (int n = 1; n <= 3; ++n) {
    ClientOps join;
    for (int i = 0; i < n; ++i) {
      join.push_back({'j', 10 + i});
    }
    ClientOps const before = [&]() {
      auto ops = join;
      ops.push_back({'f'});
      return ops;
    }();
    std::string const s = std::to_string(n);
    clientele("a" + s, before, {{{'f'}}, {{'j', 5}, {'f'}}});
    clientele("b" + s, before, {{{'f'}}, {{'j', 20}}});
    clientele("c" + s, before, {{{'j', 10}, {'l'}, {'f'}}, {{'f'}}});
    clientele("d" + s, before, {{{'f'}, {'f'}}});
  }
  clientele("e", {{'f'}}, {{{'j', 7}, {'f'}}, {{'f'}}});
  clientele("f", {{'j', 3}, {'j', 3}, {'f'}, {'l'}, {'f'}, {'l'}, {'f'}}, {});
  clientele("g", {{'j', 3}, {'j', 4}, {'j', 2}, {'f'}, {'l'}, {'f'}, {'l'},
                  {'f'}}, {});
  return verif::SchedMain(argc, argv, scenarios);
}
