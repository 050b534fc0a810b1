// Drives downsampled trajectories with smooth and less smooth motions.
#include "trajectory_ops.hpp"

#include <set>

namespace verif {

using Params = DiscreteTrajectorySegment<World>::DownsamplingParameters;

class DownsamplingDriver {
 public:
  static constexpr int kTrajectories = 3;

  DownsamplingDriver(Rng& rng, bool const linear, bool const io)
      : rng_(rng), linear_(linear), io_(io) {
    tolerance_ = std::pow(10.0, rng_(3) - 1);
    for (int i = 0; i < 12; ++i) {
      r_[i] = (rng_(20001) - 10000) / 10000.0;
    }
    radius_ = tolerance_ * std::pow(10.0, 2 + rng_(300) / 100.0);
    kind_ = rng_(5);
    for (int k = 0; k < kTrajectories; ++k) {
      Ev("new", {{"k", k + 1}});
      trajs_[k].t.t = std::make_unique<Trajectory>();
      Refresh(k);
    }
  }

  // The motion.
  DegreesOfFreedom<World> Motion(int const t) const {
    double x, y, vx, vy;
    double const w = 2 * M_PI / 200;
    if (linear_) {
      vx = std::round(r_[0] * 8);
      vy = std::round(r_[1] * 8);
      x = vx * t;
      y = vy * t;
    } else {
      x = radius_ * std::cos(w * t);
      y = radius_ * std::sin(w * t);
      vx = -w * y;
      vy = w * x;
      switch (kind_) {
        case 0:
          break;
        case 1: {
          // A small fast oscillation.
          double const a = tolerance_ * 0.4;
          double const f = 2 * M_PI / 15;
          x += a * std::cos(f * t);
          vx -= a * f * std::sin(f * t);
          break;
        }
        case 2: {
          // Some noise.
          std::mt19937_64 engine(t);
          double const a = tolerance_ * 0.02;
          x += a * ((engine() % 1000) / 500.0 - 1);
          y += a * ((engine() % 1000) / 500.0 - 1);
          vx += a / 20 * ((engine() % 1000) / 500.0 - 1);
          break;
        }
        case 3: {
          // A polynomial.
          double const u = t / 200.0;
          x = radius_ * (r_[2] * u + r_[3] * u * u + r_[4] * u * u * u * u);
          vx = radius_ / 200.0 *
               (r_[2] + 2 * r_[3] * u + 4 * r_[4] * u * u * u);
          y = radius_ * (r_[5] * u + r_[6] * u * u * u);
          vy = radius_ / 200.0 * (r_[5] + 3 * r_[6] * u * u);
          break;
        }
        case 4: {
          // Changes of velocity.
          double const u = t % 97;
          x += tolerance_ * u / 20;
          vx += tolerance_ / 20;
          break;
        }
      }
    }
    return {World::origin +
                Displacement<World>({x * Metre, y * Metre, 0 * Metre}),
            Velocity<World>({vx * (Metre / Second),
                             vy * (Metre / Second),
                             0 * (Metre / Second)})};
  }

  void Refresh(int const k) {
    auto& traj = trajs_[k];
    traj.t.handles.clear();
    traj.t.RefreshHandles(0);
    if (traj.t.t->empty()) {
      traj.dense.clear();
    } else {
      int const t_min = IntT(traj.t.t->t_min());
      int const t_max = IntT(traj.t.t->t_max());
      std::erase_if(traj.dense, [=](int const t) {
        return t < t_min || t > t_max;
      });
    }
  }

  void Observe(int const k) {
    Refresh(k);
    auto const& trajectory = *trajs_[k].t.t;
    std::vector<J> segs;
    std::vector<int> different;
    for (auto const& segment : trajectory.segments()) {
      std::vector<int> kept;
      for (auto const& [t, dof] : segment) {
        kept.push_back(IntT(t));
        if (dof != Motion(IntT(t))) {
          different.push_back(IntT(t));
        }
      }
      segs.push_back(kept);
    }
    std::vector<int> dense;
    std::vector<int> deviations;
    int worst = 0;
    for (int const t : trajs_[k].dense) {
      double const deviation =
          (trajectory.EvaluatePosition(T(t)) - Motion(t).position()).Norm() /
          Metre;
      int const scaled =
          std::ceil(std::min(1e6, deviation / tolerance_ * 1000 - 0.01));
      dense.push_back(t);
      deviations.push_back(scaled);
      worst = std::max(worst, scaled);
    }
    Ev("obs",
       {{"k", k + 1},
        {"segs", segs},
        {"diff", different},
        {"dense", dense},
        {"worst", worst}});
  }

  void SetDownsampling(int const k, bool const on) {
    auto& t = *trajs_[k].t.t;
    if (t.segments().back().size() > 1) {
      return;
    }
    auto sit = std::prev(t.segments().end());
    if (on) {
      Ev("downsample", {{"k", k + 1}, {"on", true}});
      sit->SetDownsampling(Params{.tolerance = tolerance_ * Metre});
    } else {
      Ev("downsample", {{"k", k + 1}, {"on", false}});
      sit->ClearDownsampling();
    }
    Observe(k);
  }

  void Appends(int const k, int const count) {
    auto& t = *trajs_[k].t.t;
    int now = t.empty() ? rng_(100) : IntT(t.back().time);
    if (!t.empty()) now += rng_(1, 3);
    AppendsFrom(k, count, now);
  }

  // Builds a trajectory that continues this one, and merges it.
  void Join(int const k, int const m) {
    auto& t = *trajs_[k].t.t;
    if (t.segments().size() != 1 || t.empty()) return;
    Ev("new", {{"k", m + 1}});
    trajs_[m].t.t = std::make_unique<Trajectory>();
    Refresh(m);
    SetDownsampling(m, rng_.Chance(80));
    int const now = IntT(t.back().time) + (rng_.Chance(50) ? 0 : rng_(4));
    AppendsFrom(m, rng_.Chance(60) ? 1 : rng_(1, 10), now);
    if (rng_.Chance(50)) {
      Merge(k, m);
      if (rng_.Chance(50)) ForgetAfter(k, now + 1);
      Appends(k, rng_(1, 5));
    } else {
      Merge(m, k);
      if (rng_.Chance(50)) ForgetAfter(m, now + 1);
      Appends(m, rng_(1, 5));
      if (rng_.Chance(80)) Merge(k, m);
    }
  }

  void AppendsFrom(int const k, int const count, int now) {
    auto& t = *trajs_[k].t.t;
    std::vector<int> ts;
    for (int i = 0; i < count; ++i) {
      ts.push_back(now);
      now += rng_(1, 3);
    }
    Ev("appends", {{"k", k + 1}, {"ts", ts}});
    for (int const u : ts) {
      t.Append(T(u), Motion(u)).IgnoreError();
      trajs_[k].dense.insert(u);
    }
    Observe(k);
  }

  int SomeTime(int const k) {
    auto const& t = *trajs_[k].t.t;
    if (t.empty()) return rng_(100);
    int const a = IntT(t.front().time);
    int const b = IntT(t.back().time);
    switch (rng_(4)) {
      case 0:
        return rng_(a, b);
      case 1:
        return IntT((t.begin() + rng_(t.size()))->time);
      case 2:
        return b;
      default:
        return rng_(std::max(a, b - 20), b);
    }
  }

  void ForgetAfter(int const k, int const t) {
    Ev("forgetafter", {{"k", k + 1}, {"t", t}});
    trajs_[k].t.t->ForgetAfter(T(t));
    Observe(k);
  }

  void ForgetBefore(int const k, int const t) {
    Ev("forgetbefore", {{"k", k + 1}, {"t", t}});
    trajs_[k].t.t->ForgetBefore(T(t));
    Observe(k);
  }

  // Whether the segments don't overlap and the result is consistent.
  bool Mergeable(int const k, int const m) {
    std::vector<std::pair<int, int>> ranges;
    auto const& s1 = trajs_[k].t.t->segments();
    auto const& s2 = trajs_[m].t.t->segments();
    auto it1 = s1.begin();
    auto it2 = s2.begin();
    while (it1 != s1.end() || it2 != s2.end()) {
      std::vector<std::pair<int, int>> r;
      if (it1 != s1.end()) {
        if (!it1->empty()) {
          r.emplace_back(IntT(it1->front().time), IntT(it1->back().time));
        }
        ++it1;
      }
      if (it2 != s2.end()) {
        if (!it2->empty()) {
          r.emplace_back(IntT(it2->front().time), IntT(it2->back().time));
        }
        ++it2;
      }
      std::sort(r.begin(), r.end());
      if (r.size() == 2 && r[0].second > r[1].first) return false;
      if (!r.empty()) {
        ranges.emplace_back(r.front().first, r.back().second);
      } else if (!ranges.empty()) {
        return false;
      }
    }
    for (std::size_t i = 1; i < ranges.size(); ++i) {
      if (ranges[i - 1].second != ranges[i].first) return false;
    }
    return true;
  }

  void Merge(int const k, int const m) {
    Ev("merge", {{"k", k + 1}, {"m", m + 1}});
    trajs_[k].t.t->Merge(std::move(*trajs_[m].t.t));
    trajs_[k].dense.merge(trajs_[m].dense);
    trajs_[m].dense.clear();
    trajs_[m].t.t = std::make_unique<Trajectory>();
    Refresh(m);
    Observe(k);
  }

  // Writes and reads.
  void Serialize(int const k, int const m, bool const all_exact) {
    auto& t = *trajs_[k].t.t;
    std::vector<PointIt> exact;
    std::vector<int> exact_times;
    for (auto it = t.begin(); it != t.end(); ++it) {
      if (all_exact || rng_.Chance(15)) {
        exact.push_back(it);
        exact_times.push_back(IntT(it->time));
      }
    }
    int first = -1;
    if (!all_exact && !t.empty() && rng_.Chance(30)) {
      first = IntT((t.begin() + rng_(t.size()))->time);
    }
    principia::serialization::DiscreteTrajectory message;
    if (first < 0) {
      t.WriteToMessage(&message, {}, exact);
    } else {
      t.WriteToMessage(&message, t.find(T(first)), t.end(), {}, exact);
    }
    std::string const bytes = message.SerializeAsString();
    principia::serialization::DiscreteTrajectory parsed;
    parsed.ParseFromString(bytes);
    Ev("serialize",
       {{"k", k + 1},
        {"m", m + 1},
        {"exact", exact_times},
        {"first", first}});
    auto read = std::make_unique<Trajectory>(
        Trajectory::ReadFromMessage(parsed, {}));
    // The accuracy of the points that were read.
    double position_error = 0;
    double velocity_error = 0;
    bool same_times = true;
    std::vector<int> equal;
    auto sit = t.segments().begin();
    for (auto const& segment : read->segments()) {
      Time max_dt;
      std::optional<Instant> previous;
      for (auto const& [time, _] : segment) {
        if (previous.has_value()) {
          max_dt = std::max(max_dt, time - *previous);
        }
        previous = time;
      }
      for (auto const& [time, dof] : segment) {
        auto const original = sit->find(time);
        if (original == sit->end()) {
          same_times = false;
          continue;
        }
        if (dof == original->degrees_of_freedom) {
          equal.push_back(IntT(time));
        }
        auto const dq = (dof.position() -
                         original->degrees_of_freedom.position()).coordinates();
        auto const dv = (dof.velocity() -
                         original->degrees_of_freedom.velocity()).coordinates();
        for (auto const& c : {dq.x, dq.y, dq.z}) {
          position_error = std::max(position_error, std::abs(c / Metre));
        }
        for (auto const& c : {dv.x, dv.y, dv.z}) {
          velocity_error =
              std::max(velocity_error, std::abs(c * max_dt / Metre));
        }
      }
      ++sit;
    }
    bool stable = true;
    if (all_exact) {
      std::vector<PointIt> again_exact;
      for (auto it = read->begin(); it != read->end(); ++it) {
        again_exact.push_back(it);
      }
      principia::serialization::DiscreteTrajectory again;
      read->WriteToMessage(&again, {}, again_exact);
      stable = again.SerializeAsString() == bytes;
    }
    Ev("restored",
       {{"same", same_times},
        {"equal", equal},
        {"dq", std::lround(std::min(1e6, 1000 * position_error / tolerance_))},
        {"dv", std::lround(std::min(1e6, 1000 * velocity_error / tolerance_))},
        {"stable", stable}});
    trajs_[m].dense = trajs_[k].dense;
    trajs_[m].t.t = std::move(read);
    Observe(m);
  }

  void Step() {
    int const k = rng_.Chance(75) ? 0 : rng_(kTrajectories);
    int const m = (k + 1 + rng_(kTrajectories - 1)) % kTrajectories;
    auto& t = *trajs_[k].t.t;
    int const n = t.segments().size();
    int const choice = rng_(100);
    if (choice < 35) {
      Appends(k, rng_(1, rng_.Chance(30) ? 40 : 6));
    } else if (choice < 42) {
      if (n < 5) {
        Ev("newsegment", {{"k", k + 1}});
        t.NewSegment();
        Observe(k);
        if (rng_.Chance(75)) SetDownsampling(k, true);
      }
    } else if (choice < 45) {
      SetDownsampling(k, rng_.Chance(80));
    } else if (choice < 55) {
      ForgetAfter(k, SomeTime(k));
    } else if (choice < 62) {
      ForgetBefore(k, SomeTime(k));
    } else if (choice < 72) {
      Serialize(k, k, /*all_exact=*/true);
    } else if (choice < 72 + (io_ ? 10 : 2)) {
      Serialize(k, rng_.Chance(50) ? k : m, /*all_exact=*/false);
    } else if (choice < 90) {
      // Split and merge.
      Serialize(k, m, /*all_exact=*/true);
      if (!t.empty()) {
        int const t1 = SomeTime(k);
        int t2 = t1 + (rng_.Chance(70) ? 0 : rng_(10));
        ForgetAfter(k, t1);
        if (rng_.Chance(30) && !t.empty()) {
          // A point in common.
          t2 = IntT(t.back().time);
        }
        ForgetBefore(m, t2);
      }
      if (!Mergeable(k, m)) {
        Ev("new", {{"k", m + 1}});
        trajs_[m].t.t = std::make_unique<Trajectory>();
        Refresh(m);
      } else if (rng_.Chance(50)) {
        Merge(k, m);
      } else {
        Merge(m, k);
      }
    } else if (choice < 94) {
      // Merge into an empty trajectory.
      Ev("new", {{"k", m + 1}});
      trajs_[m].t.t = std::make_unique<Trajectory>();
      Refresh(m);
      Merge(m, k);
    } else if (choice < 97) {
      if (n == 1) {
        Join(k, m);
      } else {
        int const i = rng_(1, n - 1);
        Ev("detach", {{"k", k + 1}, {"i", i + 1}, {"m", m + 1}});
        auto it = t.segments().begin();
        std::advance(it, i);
        std::set<int> const dense = trajs_[k].dense;
        trajs_[m].t.t = std::make_unique<Trajectory>(t.DetachSegments(it));
        trajs_[m].dense = dense;
        Observe(k);
        Observe(m);
        if (!trajs_[m].t.t->empty() && rng_.Chance(80)) {
          Ev("attach", {{"k", k + 1}, {"m", m + 1}});
          t.AttachSegments(std::move(*trajs_[m].t.t));
          trajs_[k].dense.merge(trajs_[m].dense);
          trajs_[m].dense.clear();
          trajs_[m].t.t = std::make_unique<Trajectory>();
          Refresh(m);
          Observe(k);
        }
      }
    } else {
      Ev("clear", {{"k", k + 1}});
      t.clear();
      Observe(k);
      SetDownsampling(k, true);
    }
  }

  // Repeats an operation between all the appends.
  void Repeat() {
    SetDownsampling(0, true);
    int const what = rng_(5);
    int const steps = rng_(20, 50);
    for (int i = 0; i < steps; ++i) {
      Appends(0, rng_(1, 2));
      switch (what) {
        case 0:
          Serialize(0, 0, /*all_exact=*/true);
          break;
        case 1:
          Ev("new", {{"k", 2}});
          trajs_[1].t.t = std::make_unique<Trajectory>();
          Refresh(1);
          Merge(1, 0);
          Ev("new", {{"k", 1}});
          trajs_[0].t.t = std::make_unique<Trajectory>();
          Refresh(0);
          Merge(0, 1);
          break;
        case 2: {
          // Splits between two retained points.
          auto& t = *trajs_[0].t.t;
          int const t1 = rng_.Chance(70) && t.size() > 2
                             ? IntT((t.end() - rng_(2, 3))->time)
                             : SomeTime(0);
          Serialize(0, 1, /*all_exact=*/true);
          ForgetAfter(0, t1);
          ForgetBefore(1, rng_.Chance(30) && !t.empty()
                              ? IntT(t.back().time) : t1);
          if (rng_.Chance(50)) {
            Merge(0, 1);
          } else {
            Merge(1, 0);
            Ev("new", {{"k", 1}});
            trajs_[0].t.t = std::make_unique<Trajectory>();
            Refresh(0);
            Merge(0, 1);
          }
          break;
        }
        case 4:
          Join(0, 1);
          break;
        case 3:
          if (rng_.Chance(70)) {
            ForgetAfter(0, SomeTime(0));
          } else {
            ForgetBefore(0, SomeTime(0));
          }
          break;
      }
    }
  }

  void Run() {
    verif::Cfg({{"linear", linear_}});
    if (rng_.Chance(30)) {
      Repeat();
      return;
    }
    SetDownsampling(0, rng_.Chance(90));
    SetDownsampling(1, rng_.Chance(50));
    int const steps = rng_(8, 25);
    for (int i = 0; i < steps; ++i) {
      Step();
    }
  }

 private:
  struct Downsampled {
    Traj t;
    std::set<int> dense;
  };
  Rng& rng_;
  bool const linear_;
  bool const io_;
  double tolerance_;
  double radius_;
  double r_[12];
  int kind_;
  Downsampled trajs_[kTrajectories];
};

}  // namespace verif

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, [](std::int64_t, verif::Rng& rng) {
    bool const linear = rng.Chance(20);
    bool const io = rng.Chance(40);
    verif::DownsamplingDriver(rng, linear, io).Run();
  });
}
