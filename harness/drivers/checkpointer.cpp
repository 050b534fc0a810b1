// Drives physics/checkpointer.
#include "physics/checkpointer.hpp"

#include <algorithm>
#include <set>
#include <vector>

#include "seq_driver.hpp"
#include "serialization/testing_utilities.pb.h"

using namespace principia::geometry::_instant;
using namespace principia::physics::_checkpointer;
using namespace principia::quantities::_si;
using principia::serialization::CheckpointerTestMessage;
using verif::Ev;
using verif::J;

namespace {

using Checkpoint = CheckpointerTestMessage::Checkpoint;

constexpr int kInfinite = 1'000'000;

Instant ToInstant(int const t) {
  return t >= kInfinite ? InfiniteFuture
                        : t <= -kInfinite ? InfinitePast
                                          : Instant() + t * Second;
}
int FromInstant(Instant const& t) {
  return t == InfiniteFuture
             ? kInfinite
             : t == InfinitePast ? -kInfinite
                                 : static_cast<int>((t - Instant()) / Second);
}

template<typename Set>
std::vector<int> List(Set const& s) {
  std::vector<int> result;
  for (auto const& t : s) {
    result.push_back(FromInstant(t));
  }
  return result;
}

void Run(std::int64_t const index, verif::Rng& rng) {
  int written = 0;
  int last = 0;
  std::vector<int> calls;
  auto const writer = [&](auto const checkpoint) {
    checkpoint->set_payload(++written);
    last = written;
  };
  auto const reader = [&](Checkpoint const& checkpoint) -> absl::Status {
    calls.push_back(checkpoint.payload());
    return checkpoint.payload() % 4 == 0
               ? absl::FailedPreconditionError("payload")
               : absl::OkStatus();
  };
  auto const other_reader = [&](Checkpoint const& checkpoint) -> absl::Status {
    calls.push_back(checkpoint.payload());
    return checkpoint.payload() % 2 == 1
               ? absl::InvalidArgumentError("payload")
               : absl::OkStatus();
  };
  auto checkpointer = std::make_unique<Checkpointer<CheckpointerTestMessage>>(
      rng.Chance(20) ? Checkpointer<CheckpointerTestMessage>::Writer([](auto) {
        std::abort();
      })
                     : writer,
      reader);
  checkpointer->set_writer(writer);

  bool const increasing = rng.Chance(60);
  int const range = rng(1, 4) * rng(1, 4) * 3;
  int now = -range;
  auto const time = [&]() {
    if (rng.Chance(3)) {
      return rng.Chance(50) ? kInfinite : -kInfinite;
    }
    return rng(-range - 2, range + 2);
  };
  auto const next_time = [&]() {
    if (increasing) {
      now += rng(1, 3);
      return now;
    }
    return rng(-range, range);
  };
  std::set<int> times;  // Only to choose what to do.
  int const length = rng(1, rng.Chance(50) ? 10 : 60);
  for (int i = 0; i < length; ++i) {
    switch (rng(17)) {
      case 0: case 1: {
        int const t = next_time();
        bool const fatal = times.contains(t);
        if (fatal) {
          if (!rng.Chance(10)) {
            break;
          }
          Ev("fatalwrite", {{"t", t}});
        }
        last = 0;
        checkpointer->WriteToCheckpoint(ToInstant(t));
        times.insert(t);
        Ev("write", {{"t", t}, {"p", last}});
        break;
      }
      case 2: case 3: case 4: {
        int const t = next_time();
        int const max = rng(-1, 6);
        bool const fatal = times.contains(t) && t - *times.rbegin() > max;
        if (fatal) {
          if (!rng.Chance(10)) {
            break;
          }
          Ev("fatalneed", {{"t", t}, {"max", max}});
        }
        last = 0;
        bool const r = checkpointer->WriteToCheckpointIfNeeded(ToInstant(t),
                                                               max * Second);
        if (r) {
          times.insert(t);
        }
        Ev("need", {{"t", t}, {"max", max}, {"r", r}, {"p", last}});
        break;
      }
      case 5:
        Ev("size", {{"r", checkpointer->size()}});
        break;
      case 6:
        Ev("oldest", {{"r", FromInstant(checkpointer->oldest_checkpoint())}});
        Ev("newest", {{"r", FromInstant(checkpointer->newest_checkpoint())}});
        break;
      case 7: {
        int const t = time();
        Ev("atafter",
           {{"t", t},
            {"r",
             FromInstant(checkpointer->checkpoint_at_or_after(ToInstant(t)))}});
        break;
      }
      case 8: {
        int const t = time();
        Ev("atbefore",
           {{"t", t},
            {"r", FromInstant(
                      checkpointer->checkpoint_at_or_before(ToInstant(t)))}});
        break;
      }
      case 9:
        Ev("all", {{"ts", List(checkpointer->all_checkpoints())}});
        break;
      case 10: {
        int const t = time();
        Ev("allbefore",
           {{"t", t},
            {"ts",
             List(checkpointer->all_checkpoints_at_or_before(ToInstant(t)))}});
        break;
      }
      case 11: {
        int const t1 = time();
        int const t2 = time();
        Ev("between",
           {{"t1", t1},
            {"t2", t2},
            {"ts", List(checkpointer->all_checkpoints_between(
                       ToInstant(t1), ToInstant(t2)))}});
        break;
      }
      case 12: {
        calls.clear();
        bool const oldest = rng.Chance(50);
        absl::Status const s = oldest
                                   ? checkpointer->ReadFromOldestCheckpoint()
                                   : checkpointer->ReadFromNewestCheckpoint();
        Ev("read",
           {{"k", oldest ? "oldest" : "newest"},
            {"t", 0},
            {"other", false},
            {"calls", calls},
            {"s", static_cast<int>(s.code())}});
        break;
      }
      case 13: {
        calls.clear();
        int const t = time();
        absl::Status const s =
            checkpointer->ReadFromCheckpointAtOrBefore(ToInstant(t));
        Ev("read",
           {{"k", "before"},
            {"t", t},
            {"other", false},
            {"calls", calls},
            {"s", static_cast<int>(s.code())}});
        break;
      }
      case 14: case 15: {
        calls.clear();
        int t = time();
        if (!times.empty() && rng.Chance(60)) {
          t = *std::next(times.begin(), rng(times.size()));
        }
        bool const other = rng.Chance(50);
        absl::Status const s =
            other ? checkpointer->ReadFromCheckpointAt(ToInstant(t),
                                                       other_reader)
                  : checkpointer->ReadFromCheckpointAt(ToInstant(t));
        Ev("read",
           {{"k", "at"},
            {"t", t},
            {"other", other},
            {"calls", calls},
            {"s", static_cast<int>(s.code())}});
        break;
      }
      case 16: {
        CheckpointerTestMessage message;
        checkpointer->WriteToMessage(message.mutable_checkpoint());
        std::vector<std::vector<int>> m;
        for (auto const& c : message.checkpoint()) {
          m.push_back({FromInstant(Instant::ReadFromMessage(c.time())),
                       c.payload()});
        }
        // Serialize for good.
        CheckpointerTestMessage message2;
        message2.ParseFromString(message.SerializeAsString());
        bool const rw = rng.Chance(40);
        checkpointer = Checkpointer<CheckpointerTestMessage>::ReadFromMessage(
            writer,
            reader,
            rw ? Checkpointer<CheckpointerTestMessage>::Rewriter(
                     [](Checkpoint const& c) {
                       Checkpoint result = c;
                       result.set_payload(c.payload() + 100);
                       return result;
                     })
               : nullptr,
            message2.checkpoint());
        Ev("roundtrip", {{"rw", rw}, {"m", m}});
        break;
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, Run);
}
