// Operations on discrete trajectories, with everything that can be observed.
#pragma once

#include <cmath>
#include <map>
#include <memory>
#include <vector>

#include "base/not_null.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/discrete_trajectory_segment.hpp"
#include "physics/discrete_trajectory_segment_iterator.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

#include "seq_driver.hpp"

namespace verif {

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_discrete_trajectory_segment;
using namespace principia::physics::_discrete_trajectory_segment_iterator;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_si;

using World = Frame<principia::serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    principia::serialization::Frame::TEST1>;
using Trajectory = DiscreteTrajectory<World>;
using SegmentIt = Trajectory::SegmentIterator;
using PointIt = Trajectory::iterator;

inline Instant T(double const t) { return Instant() + t * Second; }
inline int IntT(Instant const& t) {
  return static_cast<int>(std::lround((t - Instant()) / Second));
}

// A point has a time and two integers from which its degrees of freedom are
// computed.
struct Point {
  int t;
  int x;
  int v;
};

inline DegreesOfFreedom<World> Dof(int const x, int const v) {
  return {World::origin + Displacement<World>({x * Metre, 3 * Metre, 0 * Metre}),
          Velocity<World>({v * (Metre / Second),
                           0 * (Metre / Second),
                           0 * (Metre / Second)})};
}

inline int X(Position<World> const& q) {
  auto const c = (q - World::origin).coordinates();
  if (c.y != 3 * Metre || c.z != 0 * Metre) return 999'999;
  return static_cast<int>(std::lround(c.x / Metre));
}
inline int V(Velocity<World> const& v) {
  return static_cast<int>(std::lround(v.coordinates().x / (Metre / Second)));
}
inline J PointJ(Trajectory::value_type const& p) {
  return std::vector<int>{IntT(p.time),
                          X(p.degrees_of_freedom.position()),
                          V(p.degrees_of_freedom.velocity())};
}

struct Traj {
  std::unique_ptr<Trajectory> t;
  // Iterators to all the segments, obtained at various times.
  std::vector<SegmentIt> handles;

  void RefreshHandles(std::size_t const from) {
    handles.resize(std::min(handles.size(), from));
    auto it = t->segments().begin();
    for (std::size_t i = 0; it != t->segments().end(); ++it, ++i) {
      if (i >= handles.size()) {
        handles.push_back(it);
      }
    }
  }
};

inline int TimeOrEnd(Trajectory const& t, PointIt const& it) {
  return it == t.end() ? -1 : IntT(it->time);
}
inline int FiniteTime(Instant const& t) {
  if (t == InfiniteFuture) return 1'000'000;
  if (t == InfinitePast) return -1'000'000;
  return IntT(t);
}

// Records all the observations on the trajectory number `k`.
inline void Observe(int const k, Traj const& traj, Rng& rng) {
  Trajectory const& t = *traj.t;
  std::vector<J> pts;
  for (auto const& p : t) {
    pts.push_back(PointJ(p));
    if (pts.size() > 1000) break;
  }
  std::vector<int> rpts;
  for (auto it = t.rbegin(); it != t.rend(); ++it) {
    rpts.push_back(IntT(it->time));
    if (rpts.size() > 1000) break;
  }
  // The segments, through iterators obtained earlier.
  std::vector<J> segs;
  std::vector<bool> dummy;
  bool same_segments = t.segments().size() == traj.handles.size();
  auto sit = t.segments().begin();
  for (std::size_t i = 0; i < traj.handles.size(); ++i) {
    auto const& h = traj.handles[i];
    if (sit == t.segments().end() || &*sit != &*h || sit != h) {
      same_segments = false;
      break;
    }
    ++sit;
    std::vector<J> seg;
    for (auto it = h->begin(); it != h->end(); ++it) {
      seg.push_back(PointJ(*it));
      if (seg.size() > 1000) break;
    }
    std::vector<int> rseg;
    for (auto it = h->rbegin(); it != h->rend(); ++it) {
      rseg.push_back(IntT(it->time));
      if (rseg.size() > 1000) break;
    }
    segs.push_back(J({{"n", h->size()},
                      {"empty", h->empty()},
                      {"p", seg},
                      {"r", rseg},
                      {"end", TimeOrEnd(t, h->end())},
                      {"tmin", FiniteTime(h->t_min())},
                      {"tmax", FiniteTime(h->t_max())}}));
  }
  if (same_segments) {
    // And backward.
    std::size_t i = traj.handles.size();
    for (auto const& segment : t.rsegments()) {
      if (i == 0 || &*traj.handles[--i] != &segment) {
        same_segments = false;
        break;
      }
    }
    same_segments &= i == 0;
  }
  // Lookups.
  std::vector<J> lookups;
  std::vector<J> evals;
  int const n = pts.size();
  for (int i = 0; i < 6; ++i) {
    int q;
    if (n > 0 && rng.Chance(75)) {
      q = IntT((t.begin() + rng(n))->time) + (rng.Chance(50) ? 0 : 4);
    } else {
      q = rng(30) * 4;
    }
    lookups.push_back(J({{"q", q},
                         {"f", TimeOrEnd(t, t.find(T(q)))},
                         {"l", TimeOrEnd(t, t.lower_bound(T(q)))},
                         {"u", TimeOrEnd(t, t.upper_bound(T(q)))}}));
    if (!traj.handles.empty() && same_segments) {
      int const s = rng(traj.handles.size());
      auto const& h = traj.handles[s];
      lookups.push_back(J({{"s", s + 1},
                           {"q", q},
                           {"f", TimeOrEnd(t, h->find(T(q)))},
                           {"l", TimeOrEnd(t, h->lower_bound(T(q)))},
                           {"u", TimeOrEnd(t, h->upper_bound(T(q)))}}));
    }
  }
  // Random access and comparisons.
  std::vector<J> arith;
  for (int i = 0; i < 4 && n > 0; ++i) {
    // Iterators obtained in various ways.
    int const a = rng(n + 1);
    int const b = rng(n + 1);
    PointIt const ia = rng.Chance(50)
                           ? t.begin() + a
                           : rng.Chance(50) || a == n
                                 ? t.end() - (n - a)
                                 : t.find((t.begin() + a)->time);
    PointIt const ib = t.begin() + b;
    PointIt ic = ia;
    ic += b - a;
    PointIt id = ia;
    id -= a - b;
    PointIt next = ia;
    PointIt previous = ib;
    arith.push_back(
        J({{"a", a},
           {"b", b},
           {"ta", TimeOrEnd(t, ia)},
           {"tb", TimeOrEnd(t, ib)},
           {"tc", TimeOrEnd(t, ic)},
           {"td", TimeOrEnd(t, id)},
           {"te", TimeOrEnd(t, (b - a) + ia)},
           {"tf", b == n ? -1 : IntT(ia[b - a].time)},
           {"d", std::max(ia, ib) - std::min(ia, ib)},
           {"inc", a == n ? -1 : TimeOrEnd(t, ++next)},
           {"dec", b == 0 ? -1 : TimeOrEnd(t, --previous)},
           {"cmp", std::vector<bool>{ia == ib, ia != ib, ia < ib, ia > ib,
                                     ia <= ib, ia >= ib}}}));
  }
  // Interpolation.
  for (int i = 0; i < 4 && n > 0; ++i) {
    int const first = IntT(t.begin()->time);
    int const last = IntT(std::prev(t.end())->time);
    int const j = rng(n);
    auto const it = t.begin() + j;
    int q = IntT(it->time);
    if (j + 1 < n && rng.Chance(80)) {
      q = (q + IntT(std::next(it)->time)) / 2;
    }
    if (q < first || q > last) continue;
    auto const eval = [q](auto const& trajectory) {
      auto const dof = trajectory.EvaluateDegreesOfFreedom(T(q));
      auto const position = trajectory.EvaluatePosition(T(q));
      auto const velocity = trajectory.EvaluateVelocity(T(q));
      auto const c = (position - World::origin).coordinates();
      return std::vector<std::int64_t>{
          std::llround(c.x / Metre * 1000),
          std::llround(c.y / Metre * 1000) * 1000 +
              std::llround(c.z / Metre * 1000),
          std::llround(velocity.coordinates().x / (Metre / Second) * 1'000'000),
          (dof.position() - position).Norm() < 1e-9 * Metre &&
              (dof.velocity() - velocity).Norm() < 1e-9 * (Metre / Second)};
    };
    int s = 0;
    for (std::size_t m = 0; m < traj.handles.size() && same_segments; ++m) {
      auto const& h = traj.handles[m];
      if (!h->empty() && h->t_min() <= T(q) && T(q) <= h->t_max()) {
        s = m + 1;
        if (rng.Chance(50)) break;
      }
    }
    evals.push_back(J({{"q", q},
                       {"e", eval(t)},
                       {"s", s > 0 ? J(eval(*traj.handles[s - 1]))
                                   : J(std::vector<int>{})}}));
  }
  Ev("obs",
     {{"k", k},
      {"pts", pts},
      {"rpts", rpts},
      {"segs", segs},
      {"same", same_segments},
      {"size", t.size()},
      {"empty", t.empty()},
      {"front", t.empty() ? J(std::vector<int>{}) : PointJ(t.front())},
      {"back", t.empty() ? J(std::vector<int>{}) : PointJ(t.back())},
      {"tmin", FiniteTime(t.t_min())},
      {"tmax", FiniteTime(t.t_max())},
      {"look", lookups},
      {"arith", arith},
      {"eval", evals}});
}

// Drives a few trajectories.  All the points that have the same time are the
// same, except for the mismatches introduced on purpose.
class TrajectoryDriver {
 public:
  static constexpr int kTrajectories = 3;

  explicit TrajectoryDriver(Rng& rng) : rng_(rng) {
    salt_ = rng(1000);
    for (int k = 0; k < kTrajectories; ++k) {
      Reset(k);
    }
  }

  virtual ~TrajectoryDriver() = default;

  Point PointAt(int const t) const {
    return {t, 2 * ((t / 8 * 7 + salt_) % 41), (t / 8 * 3 + salt_) % 5 - 2};
  }

  void Reset(int const k) {
    Ev("new", {{"k", k + 1}});
    trajs_[k].t = std::make_unique<Trajectory>();
    trajs_[k].RefreshHandles(0);
    Observe(k);
  }

  void Observe(int const k) { verif::Observe(k + 1, trajs_[k], rng_); }

  void Append(int const k, Point const& p) {
    Ev("append", {{"k", k + 1}, {"t", p.t}, {"x", p.x}, {"v", p.v}});
    auto const status = trajs_[k].t->Append(T(p.t), Dof(p.x, p.v));
    Ev("status", {{"ok", status.ok()}});
    Observe(k);
  }

  void NewSegment(int const k) {
    Ev("newsegment", {{"k", k + 1}});
    auto const it = trajs_[k].t->NewSegment();
    trajs_[k].handles.push_back(it);
    Observe(k);
  }

  void Detach(int const k, int const i, int const m) {
    Ev("detach", {{"k", k + 1}, {"i", i + 1}, {"m", m + 1}});
    trajs_[m].t = std::make_unique<Trajectory>(
        trajs_[k].t->DetachSegments(trajs_[k].handles[i]));
    trajs_[k].handles.resize(i);
    trajs_[m].RefreshHandles(0);
    Observe(k);
    Observe(m);
  }

  void Attach(int const k, int const m) {
    Ev("attach", {{"k", k + 1}, {"m", m + 1}});
    bool const was_empty = trajs_[k].t->empty();
    auto const it = trajs_[k].t->AttachSegments(std::move(*trajs_[m].t));
    if (was_empty) {
      trajs_[k].handles.clear();
    }
    std::size_t const n = trajs_[k].handles.size();
    trajs_[k].handles.push_back(it);
    trajs_[k].RefreshHandles(n + 1);
    trajs_[m].t = std::make_unique<Trajectory>();
    trajs_[m].RefreshHandles(0);
    Observe(k);
  }

  void Delete(int const k, int const i) {
    Ev("delete", {{"k", k + 1}, {"i", i + 1}});
    auto it = trajs_[k].handles[i];
    trajs_[k].t->DeleteSegments(it);
    Ev("status", {{"ok", it == trajs_[k].t->segments().end()}});
    trajs_[k].handles.resize(i);
    Observe(k);
  }

  void ForgetAfter(int const k, int const t) {
    bool const through_iterator = rng_.Chance(30);
    auto& trajectory = *trajs_[k].t;
    if (through_iterator) {
      auto const it = trajectory.lower_bound(T(t));
      Ev("forgetafter",
         {{"k", k + 1}, {"t", TimeOrEnd(trajectory, it)}, {"it", true}});
      trajectory.ForgetAfter(it);
    } else {
      Ev("forgetafter", {{"k", k + 1}, {"t", t}, {"it", false}});
      trajectory.ForgetAfter(T(t));
    }
    trajs_[k].RefreshHandles(trajectory.segments().size());
    Observe(k);
  }

  void ForgetBefore(int const k, int const t) {
    bool const through_iterator = rng_.Chance(30);
    auto& trajectory = *trajs_[k].t;
    if (through_iterator) {
      auto const it = trajectory.lower_bound(T(t));
      Ev("forgetbefore",
         {{"k", k + 1}, {"t", TimeOrEnd(trajectory, it)}, {"it", true}});
      trajectory.ForgetBefore(it);
    } else {
      Ev("forgetbefore", {{"k", k + 1}, {"t", t}, {"it", false}});
      trajectory.ForgetBefore(T(t));
    }
    trajs_[k].RefreshHandles(trajectory.segments().size());
    Observe(k);
  }

  void Clear(int const k) {
    Ev("clear", {{"k", k + 1}});
    trajs_[k].t->clear();
    trajs_[k].RefreshHandles(1);
    Observe(k);
  }

  void Merge(int const k, int const m) {
    Ev("merge", {{"k", k + 1}, {"m", m + 1}});
    trajs_[k].t->Merge(std::move(*trajs_[m].t));
    trajs_[k].RefreshHandles(trajs_[k].handles.size());
    trajs_[m].t = std::make_unique<Trajectory>();
    trajs_[m].RefreshHandles(0);
    Observe(k);
  }

  // Moving a trajectory doesn't affect the iterators.
  void Move(int const k) {
    Ev("move", {{"k", k + 1}});
    auto moved = std::make_unique<Trajectory>(std::move(*trajs_[k].t));
    if (rng_.Chance(50)) {
      trajs_[k].t = std::move(moved);
    } else {
      trajs_[k].t = std::make_unique<Trajectory>();
      *trajs_[k].t = std::move(*moved);
    }
    Observe(k);
  }

  // Rebuilds in `m` a trajectory identical to `k`.
  void Clone(int const k, int const m) {
    Ev("clone", {{"k", k + 1}, {"m", m + 1}});
    trajs_[m].t = std::make_unique<Trajectory>();
    bool first = true;
    std::vector<SegmentIt> handles;
    for (auto const& h : trajs_[k].handles) {
      if (first) {
        trajs_[m].handles.clear();
        trajs_[m].handles.push_back(trajs_[m].t->segments().begin());
      } else {
        trajs_[m].handles.push_back(trajs_[m].t->NewSegment());
      }
      first = false;
      for (auto it = h->begin(); it != h->end(); ++it) {
        if (trajs_[m].t->empty() || it->time > trajs_[m].t->back().time) {
          trajs_[m].t->Append(it->time, it->degrees_of_freedom).IgnoreError();
        }
      }
    }
    Observe(m);
  }

  // Splits a trajectory at two places, and puts it together again.
  void SplitAndMerge(int const k, int const m) {
    Clone(k, m);
    if (trajs_[k].t->empty()) {
      Merge(k, m);
      return;
    }
    int const t1 = SomeTime(k);
    int const t2 = t1 + (rng_.Chance(70) ? 0 : 4 * rng_(5));
    if (rng_.Chance(50)) {
      ForgetAfter(k, t1);
      ForgetBefore(m, t2);
    } else {
      ForgetBefore(k, t2);
      ForgetAfter(m, t1);
    }
    if (rng_.Chance(60)) {
      Merge(k, m);
    } else {
      Merge(m, k);
    }
  }

  int SomeTime(int const k) {
    auto const& t = *trajs_[k].t;
    if (t.empty() || rng_.Chance(8)) {
      return rng_(30) * 4;
    }
    std::int64_t const n = t.size();
    if (rng_.Chance(35)) {
      // A junction, maybe.
      auto const& h = trajs_[k].handles[rng_(trajs_[k].handles.size())];
      if (!h->empty()) {
        return IntT(h->t_min());
      }
    }
    return IntT((t.begin() + rng_(n))->time) + (rng_.Chance(60) ? 0 : 4);
  }

  void AppendSome(int const k) {
    auto const& t = *trajs_[k].t;
    int const count = rng_(1, 3);
    for (int i = 0; i < count; ++i) {
      int const next = t.empty()
                           ? 8 * rng_(1, 6)
                           : IntT(t.back().time) + 8 * rng_(1, 2);
      Append(k, PointAt(next));
    }
  }

  // An operation that may or may not be valid.
  void Dubious() {
    int const k = rng_(kTrajectories);
    int const m = (k + 1) % kTrajectories;
    switch (rng_(4)) {
      case 0:
        Append(k, PointAt(8 * rng_(12)));
        break;
      case 1: {
        if (!trajs_[k].t->empty() && !trajs_[m].t->empty() &&
            trajs_[k].t->back().time == trajs_[m].t->front().time) {
          break;
        }
        Attach(k, m);
        break;
      }
      case 2:
        Merge(k, m);
        break;
      case 3: {
        // A mismatch when attaching.
        if (trajs_[k].t->empty()) {
          break;
        }
        Reset(m);
        Point p = PointAt(IntT(trajs_[k].t->back().time));
        p.x += 2;
        Append(m, p);
        Attach(k, m);
        break;
      }
    }
  }

  virtual void Step() {
    int const k = rng_.Chance(60) ? 0 : rng_(kTrajectories);
    int const m = (k + 1 + rng_(kTrajectories - 1)) % kTrajectories;
    auto& trajectory = *trajs_[k].t;
    int const choice = rng_(100);
    int const n = trajs_[k].handles.size();
    if (choice < 26) {
      AppendSome(k);
    } else if (choice < 44) {
      if (n < 6) NewSegment(k);
    } else if (choice < 52) {
      int const i = rng_(n);
      if (i > 0) {
        Detach(k, i, m);
        if (rng_.Chance(50) && !trajs_[m].t->empty()) {
          Attach(k, m);
        }
      }
    } else if (choice < 58) {
      bool const ok = !trajs_[m].t->empty() &&
                      (trajectory.empty() ||
                       (!trajs_[m].handles.front()->empty() &&
                        trajectory.back().time <= trajs_[m].t->front().time));
      if (ok) Attach(k, m);
    } else if (choice < 63) {
      int const i = rng_(n);
      if (i > 0) Delete(k, i);
    } else if (choice < 73) {
      ForgetAfter(k, SomeTime(k));
    } else if (choice < 83) {
      ForgetBefore(k, SomeTime(k));
    } else if (choice < 93) {
      SplitAndMerge(k, m);
    } else if (choice < 95) {
      Move(k);
    } else if (choice < 96) {
      Clear(k);
    } else if (choice < 98) {
      Reset(k);
    } else {
      Dubious();
    }
  }

  void Run(int const steps) {
    for (int i = 0; i < steps; ++i) {
      Step();
    }
  }

 protected:
  Rng& rng_;
  int salt_;
  Traj trajs_[kTrajectories];
};

}  // namespace verif
