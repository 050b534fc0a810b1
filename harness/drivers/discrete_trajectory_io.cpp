// Drives discrete trajectories with edits, and writes and reads them.
#include "trajectory_ops.hpp"

namespace verif {

class IoDriver : public TrajectoryDriver {
 public:
  using TrajectoryDriver::TrajectoryDriver;

  void Serialize(int const k, int const m) {
    auto const& trajectory = *trajs_[k].t;
    int const n = trajectory.size();
    bool const full = rng_.Chance(30);
    int b = full ? 0 : rng_(n + 1);
    int e = full || rng_.Chance(50) ? n : rng_(n + 1);
    if (e < b) std::swap(b, e);
    if (b == e && rng_.Chance(50)) {
      // An empty range, at the end.
      b = n;
      e = n;
    }
    auto const begin = trajectory.begin() + b;
    auto const end = trajectory.begin() + e;
    std::vector<SegmentIt> tracked;
    std::vector<int> tracked_indices;
    int const count = rng_(4);
    for (int i = 0; i < count; ++i) {
      if (rng_.Chance(20)) {
        tracked.push_back(trajectory.segments().end());
        tracked_indices.push_back(0);
      } else {
        int const j = rng_(trajs_[k].handles.size());
        tracked.push_back(trajs_[k].handles[j]);
        tracked_indices.push_back(j + 1);
      }
    }
    std::vector<PointIt> exact;
    int const exact_count = rng_.Chance(50) ? 0 : rng_(4);
    for (int i = 0; i < exact_count && n > 0; ++i) {
      exact.push_back(trajectory.begin() + rng_(n));
    }
    Ev("serialize",
       {{"k", k + 1},
        {"m", m + 1},
        {"full", full},
        {"first", TimeOrEnd(trajectory, begin)},
        {"last", TimeOrEnd(trajectory, end)},
        {"tracked", tracked_indices}});
    principia::serialization::DiscreteTrajectory message;
    if (full) {
      trajectory.WriteToMessage(&message, tracked, exact);
    } else {
      trajectory.WriteToMessage(&message, begin, end, tracked, exact);
    }
    std::string const bytes = message.SerializeAsString();
    principia::serialization::DiscreteTrajectory parsed;
    parsed.ParseFromString(bytes);

    std::vector<SegmentIt> read(tracked.size());
    std::vector<SegmentIt*> read_pointers;
    for (auto& it : read) {
      read_pointers.push_back(&it);
    }
    trajs_[m].t = std::make_unique<Trajectory>(
        Trajectory::ReadFromMessage(parsed, read_pointers));
    trajs_[m].RefreshHandles(0);
    std::vector<int> restored;
    for (auto const& it : read) {
      int index = 0;
      if (it != trajs_[m].t->segments().end()) {
        index = -1;
        for (std::size_t i = 0; i < trajs_[m].handles.size(); ++i) {
          if (trajs_[m].handles[i] == it) {
            index = i + 1;
          }
        }
      }
      restored.push_back(index);
    }
    bool stable = true;
    if (exact.empty()) {
      principia::serialization::DiscreteTrajectory again;
      trajs_[m].t->WriteToMessage(&again, read, {});
      stable = again.SerializeAsString() == bytes;
    }
    Ev("restored", {{"m", m + 1}, {"tracked", restored}, {"stable", stable}});
    Observe(m);
    // The trajectory that was written is unaffected.
    if (rng_.Chance(30)) {
      Observe(k);
    }
  }

  void Step() override {
    if (rng_.Chance(30)) {
      int const k = rng_.Chance(60) ? 0 : rng_(kTrajectories);
      Serialize(k, rng_(kTrajectories));
    } else {
      TrajectoryDriver::Step();
    }
  }
};

}  // namespace verif

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, [](std::int64_t, verif::Rng& rng) {
    verif::IoDriver driver(rng);
    driver.Run(rng(6, 16));
  });
}
