// Drives continuous trajectories: appends, prepends, checkpoints and
// serialization.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

#include "seq_driver.hpp"

namespace verif {

using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_si;

using World = Frame<principia::serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    principia::serialization::Frame::TEST1>;
using Continuous = ContinuousTrajectory<World>;

struct Hasher {
  std::uint64_t h = 1469598103934665603ULL;
  void operator()(double const d) {
    std::uint64_t u;
    std::memcpy(&u, &d, sizeof(u));
    for (int i = 0; i < 8; ++i) {
      h = (h ^ ((u >> (8 * i)) & 255)) * 1099511628211ULL;
    }
  }
  std::string text() const {
    char buffer[20];
    std::snprintf(buffer, sizeof(buffer), "%016llx", (unsigned long long)h);
    return buffer;
  }
};

class ContinuousDriver {
 public:
  static constexpr int kTrajectories = 3;

  explicit ContinuousDriver(Rng& rng) : rng_(rng) {
    step_ = std::pow(2.0, rng_(8) - 1) * Second;
    tolerance_ = std::pow(10.0, rng_(4) - 3);
    amplitude_ = tolerance_ * std::pow(10.0, 2 + rng_(5));
    period_ = rng_(12, 100);
    for (int k = 0; k < kTrajectories; ++k) {
      New(k);
    }
  }

  struct Traj {
    std::unique_ptr<Continuous> t;
    int first = -1;
    int last = -1;
    int pending = 0;  // The size of the last points.
    bool appendable = true;
    std::map<int, int> checkpoints;  // From the time to the number of points.
    bool empty() const { return last - (pending - 1) == first; }
    int t_max() const { return last - (pending - 1); }
  };

  Instant At(double const t) const { return Instant() + t * step_; }

  DegreesOfFreedom<World> Motion(int const c, double const t) const {
    double const w = 2 * M_PI / (period_ * c);
    double x = amplitude_ * std::cos(w * t);
    double y = amplitude_ * std::sin(w * t);
    double vx = -w * y;
    double vy = w * x;
    if (c == 3) {
      std::mt19937_64 engine(static_cast<int>(t));
      x += amplitude_ * ((engine() % 1000) / 500.0 - 1);
      vx += amplitude_ * ((engine() % 1000) / 500.0 - 1);
    }
    return {World::origin +
                Displacement<World>(
                    {x * Metre, y * Metre, amplitude_ * w * t * Metre}),
            Velocity<World>({vx * (Metre / step_),
                             vy * (Metre / step_),
                             amplitude_ * w * (Metre / step_)})};
  }

  void New(int const k) {
    Ev("new", {{"k", k + 1}});
    trajs_[k] = Traj{};
    trajs_[k].t = std::make_unique<Continuous>(step_, tolerance_ * Metre);
  }

  std::string TimeText(Instant const& t) const {
    double const d = (t - Instant()) / step_;
    if (d == std::numeric_limits<double>::infinity()) return "+inf";
    if (d == -std::numeric_limits<double>::infinity()) return "-inf";
    if (d != std::round(d)) return "bad";
    return std::to_string(static_cast<int>(d));
  }

  void Observe(int const k) {
    auto& x = trajs_[k];
    auto const& t = *x.t;
    std::vector<J> polys;
    if (!t.empty()) {
      int const t_min = std::lround((t.t_min() - Instant()) / step_);
      int const t_max = std::lround((t.t_max() - Instant()) / step_);
      // The times where we evaluate, in random order.
      std::vector<std::pair<int, double>> times;
      int n = 0;
      for (int begin = t_min; begin < t_max; begin += 8, ++n) {
        times.emplace_back(n, std::nextafter(static_cast<double>(begin),
                                             begin + 1.0));
        for (int i = 1; i <= 5; ++i) {
          times.emplace_back(n, begin + i * 8.0 / 5);
        }
        times.back().second = begin + 8;
        for (int i = 1; i < 8; i += 3) {
          times.emplace_back(n, begin + i);
        }
        if (begin == t_min) {
          times.emplace_back(-1, begin);
        }
      }
      if (rng_.Chance(50)) {
        for (int i = times.size() - 1; i > 0; --i) {
          std::swap(times[i], times[rng_(i + 1)]);
        }
      }
      struct Values {
        std::map<double, DegreesOfFreedom<World>> values;
        bool agree = true;
        bool close = true;
      };
      std::vector<Values> values(n);
      for (auto const& [i, time] : times) {
        Instant const at = At(time);
        auto& v = values[std::max(i, 0)];
        auto const dof = t.EvaluateDegreesOfFreedom(at);
        auto const q = t.EvaluatePosition(at);
        auto const p = t.EvaluateVelocity(at);
        v.agree &= q == dof.position() &&
                   (p - dof.velocity()).Norm() <=
                       1e-12 * (p.Norm() + amplitude_ * Metre / step_);
        v.agree &= t.EvaluatePositionLocked(at) == q &&
                   t.EvaluateVelocityLocked(at) == p &&
                   t.EvaluateDegreesOfFreedomLocked(at) == dof;
        if (i >= 0) {
          v.values.emplace(time, dof);
        }
        // This is only meaningful for a homogeneous history.
        bool close = false;
        for (int c = 1; c <= 2; ++c) {
          auto const expected = Motion(c, time);
          close |= (q - expected.position()).Norm() <=
                       20 * tolerance_ * Metre + 1e-10 * amplitude_ * Metre &&
                   (p - expected.velocity()).Norm() * step_ <=
                       50 * tolerance_ * Metre + 1e-10 * amplitude_ * Metre;
        }
        v.close &= close;
      }
      for (auto const& v : values) {
        Hasher hash;
        for (auto const& [_, dof] : v.values) {
          auto const q = (dof.position() - World::origin).coordinates();
          auto const p = dof.velocity().coordinates();
          for (auto const& c : {q.x, q.y, q.z}) hash(c / Metre);
          for (auto const& c : {p.x, p.y, p.z}) hash(c / (Metre / Second));
        }
        polys.push_back(J(Fields{{"hash", hash.text()},
                                   {"agree", v.agree},
                                   {"close", v.close}}));
      }
    }
    Ev("obs",
       {{"k", k + 1},
        {"empty", t.empty()},
        {"min", TimeText(t.t_min())},
        {"max", TimeText(t.t_max())},
        {"polys", polys}});
  }

  void Appends(int const k, int const count, int const c) {
    auto& x = trajs_[k];
    if (!x.appendable) return;
    int now = x.last == -1 ? rng_(20) : x.last + 1;
    if (x.last == -1) x.first = now;
    for (int i = 0; i < count; ++i, ++now) {
      if (i % 50 == 0) {
        std::vector<J> ps;
        for (int j = 0; j < std::min(50, count - i); ++j) {
          ps.push_back(J(Fields{{"t", now + j}, {"c", c}}));
        }
        Ev("append", {{"k", k + 1}, {"ps", ps}});
      }
      x.t->Append(At(now), Motion(c, now)).IgnoreError();
      x.last = now;
      x.pending = x.pending == 8 ? 1 : x.pending + 1;
    }
    Observe(k);
  }

  void WriteCheckpoint(int const k) {
    auto& x = trajs_[k];
    if (x.last == -1 ||
        (!x.checkpoints.empty() && x.checkpoints.rbegin()->first >= x.last)) {
      return;
    }
    Ev("checkpoint", {{"k", k + 1}});
    x.t->WriteToCheckpoint(At(x.last));
    x.checkpoints[x.last] = x.pending;
  }

  // Restores k from a checkpoint of m.
  void Restore(int const k, int const m, int const t) {
    auto& x = trajs_[k];
    auto& y = trajs_[m];
    auto const status =
        y.t->ReadFromCheckpointAt(At(t), x.t->MakeCheckpointerReader());
    Ev("restore", {{"k", k + 1}, {"m", m + 1}, {"t", t}, {"ok", status.ok()}});
    if (status.ok()) {
      int const pending = y.checkpoints.at(t);
      int const oldest = t - pending + 1;
      if (x.last == -1 || x.first > oldest) {
        x.first = oldest;
      }
      x.last = t;
      x.pending = pending;
      x.appendable = true;
    }
    Observe(k);
  }

  void Prepend(int const k, int const m) {
    auto& x = trajs_[k];
    auto& y = trajs_[m];
    Ev("prepend", {{"k", k + 1}, {"m", m + 1}});
    bool const trivial = y.last == -1 || y.empty();
    x.t->Prepend(std::move(*y.t));
    if (!trivial) {
      if (x.last == -1) {
        auto const checkpoints = x.checkpoints;
        x.last = y.last;
        x.pending = y.pending;
      }
      x.first = y.first;
    }
    trajs_[m] = Traj{};
    trajs_[m].t = std::make_unique<Continuous>(step_, tolerance_ * Metre);
    Observe(k);
    Observe(m);
  }

  void Serialize(int const k, int const m, int const t) {
    auto& x = trajs_[k];
    Ev("serialize", {{"k", k + 1}, {"m", m + 1}, {"t", t}});
    principia::serialization::ContinuousTrajectory message;
    x.t->WriteToMessage(&message);
    std::string const bytes = message.SerializeAsString();
    principia::serialization::ContinuousTrajectory parsed;
    parsed.ParseFromString(bytes);
    Traj y;
    y.t = Continuous::ReadFromMessage(At(t), parsed);
    y.checkpoints = x.checkpoints;
    auto it = x.checkpoints.upper_bound(t);
    int const oldest_checkpoint = x.checkpoints.begin()->first;
    bool const polynomials =
        !x.empty() && x.first + 8 <= oldest_checkpoint;
    if (it == x.checkpoints.begin()) {
      y.first = x.first;
      y.appendable = false;
      y.last = 0;
      y.pending = 0;
    } else {
      --it;
      y.last = it->first;
      y.pending = it->second;
      y.first = polynomials ? x.first : it->first - it->second + 1;
    }
    trajs_[m] = std::move(y);
    Observe(m);
    std::vector<int> ts;
    for (auto const& checkpoint : parsed.checkpoint()) {
      ts.push_back(std::lround(
          (Instant::ReadFromMessage(checkpoint.time()) - Instant()) / step_));
    }
    Ev("checkpoints", {{"k", k + 1}, {"ts", ts}});
  }

  // A time for reading such that there are no gaps.
  int ReadTime(int const k) {
    auto const& x = trajs_[k];
    auto const& [oldest, pending] = *x.checkpoints.begin();
    if (oldest - pending + 1 == x.first || x.first > oldest) {
      return rng_(oldest, x.checkpoints.rbegin()->first + 10);
    } else if (x.checkpoints.size() == 1) {
      return oldest + rng_(10);
    } else {
      return rng_(oldest, std::next(x.checkpoints.begin())->first - 1);
    }
  }

  int SomeCheckpoint(int const k) {
    auto const& x = trajs_[k];
    return std::next(x.checkpoints.begin(), rng_(x.checkpoints.size()))->first;
  }

  // Makes an operation that dies, or not.
  void Last() {
    int const k = rng_(kTrajectories);
    auto& x = trajs_[k];
    switch (rng_(5)) {
      case 0: {
        if (x.last == -1 || !x.appendable) return;
        int const t = x.last + rng_(-2, 3);
        Ev("append",
           {{"k", k + 1},
            {"ps", std::vector<J>{J(Fields{{"t", t}, {"c", 1}})}}});
        x.t->Append(At(t), Motion(1, t)).IgnoreError();
        break;
      }
      case 1: {
        if (x.last == -1) return;
        int const t8 = rng_.Chance(50) ? rng_(8 * x.first - 8, 8 * x.first + 8)
                                       : rng_(8 * x.last - 80, 8 * x.last + 8);
        Ev("evaluate", {{"k", k + 1}, {"t8", t8}});
        switch (rng_(3)) {
          case 0:
            x.t->EvaluatePosition(At(t8 / 8.0));
            break;
          case 1:
            x.t->EvaluateVelocity(At(t8 / 8.0));
            break;
          case 2:
            x.t->EvaluateDegreesOfFreedom(At(t8 / 8.0));
            break;
        }
        break;
      }
      case 2:
        Prepend(k, (k + 1) % kTrajectories);
        break;
      case 3: {
        int const t = x.checkpoints.empty() ? rng_(10)
                                            : x.checkpoints.begin()->first -
                                                  rng_(1, 20);
        Serialize(k, (k + 1) % kTrajectories, t);
        break;
      }
      case 4:
        Restore(k, (k + 1) % kTrajectories, 1 + rng_(100));
        break;
    }
  }

  void Step() {
    int const k = rng_.Chance(75) ? 0 : rng_(kTrajectories);
    int const m = (k + 1 + rng_(kTrajectories - 1)) % kTrajectories;
    auto& x = trajs_[k];
    int const choice = rng_(100);
    if (choice < 45) {
      if (rng_.Chance(15)) c_ = rng_(1, 3);
      Appends(k, rng_(1, rng_.Chance(20) ? 40 : 9), c_);
    } else if (choice < 60) {
      WriteCheckpoint(k);
    } else if (choice < 72) {
      if (!x.checkpoints.empty()) {
        int const t = ReadTime(k);
        Serialize(k, rng_.Chance(50) ? k : m, t);
      }
    } else if (choice < 80) {
      // Rewind.
      if (!x.checkpoints.empty()) {
        int const t = SomeCheckpoint(k);
        int const oldest = t - x.checkpoints.at(t) + 1;
        if (x.last != -1 && x.appendable && (oldest <= x.t_max())) {
          Restore(k, k, t);
        }
      }
    } else if (choice < 96) {
      // Reanimate: restores at a checkpoint, appends up to another one,
      // prepends.
      if (!x.checkpoints.empty() && x.last != -1 && x.appendable) {
        int const t = SomeCheckpoint(k);
        New(m);
        Restore(m, k, t);
        int const target = x.first + (rng_.Chance(50) ? 0 : rng_(8));
        if (target > t) {
          Appends(m, target - t, c_);
        }
        auto& y = trajs_[m];
        if (y.empty() || y.t_max() == x.first) {
          Prepend(k, m);
        }
      }
    } else {
      // The prefix is not from the same trajectory.
      if (x.last != -1 && x.first >= 9 && x.appendable) {
        New(m);
        auto& y = trajs_[m];
        int const batches = rng_(1, x.first / 8);
        y.first = x.first - 8 * batches;
        y.last = y.first;
        y.pending = 1;
        Ev("append",
           {{"k", m + 1},
            {"ps", std::vector<J>{J(Fields{{"t", y.first}, {"c", c_}})}}});
        y.t->Append(At(y.first), Motion(c_, y.first)).IgnoreError();
        Appends(m, 8 * batches + rng_(8), c_);
        Prepend(k, m);
      } else if (rng_.Chance(30)) {
        // Prepend to a fresh trajectory.
        New(m);
        Prepend(m, k);
      }
    }
  }

  // Enough batches for the degree to be lowered because of its age.
  void Long() {
    Appends(0, 1, 3);
    WriteCheckpoint(0);
    Appends(0, rng_(8, 40), 3);
    c_ = rng_(1, 2);
    Appends(0, rng_(100, 400), c_);
    WriteCheckpoint(0);
    int const t = trajs_[0].last;
    int const n = rng_(820 - t, 900 - t);
    Appends(0, n, c_);
    if (rng_.Chance(50)) {
      Serialize(0, 1, t);
      Appends(1, n, c_);
    } else {
      Restore(1, 0, t);
      Appends(1, 50, c_);
      Prepend(2, 1);
      Appends(2, n - 50, c_);
    }
    if (rng_.Chance(50)) {
      New(2);
      int const first = trajs_[0].first;
      Restore(2, 0, first);
      Appends(2, t - first, 3);
      Prepend(1, 2);
    }
  }

  void Run() {
    verif::Cfg({{"n", 0}});
    c_ = rng_(1, 3);
    if (rng_.Chance(2)) {
      Long();
      return;
    }
    if (rng_.Chance(70)) {
      Appends(0, 1, c_);
      WriteCheckpoint(0);
    }
    int const steps = rng_(6, 25);
    for (int i = 0; i < steps; ++i) {
      Step();
    }
    Last();
  }

 private:
  Rng& rng_;
  Time step_;
  double tolerance_;
  double amplitude_;
  int period_;
  int c_ = 1;
  Traj trajs_[kTrajectories];
};

}  // namespace verif

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, [](std::int64_t, verif::Rng& rng) {
    verif::ContinuousDriver(rng).Run();
  });
}
