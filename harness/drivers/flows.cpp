// Drives the functions that flow trajectories in the field of an ephemeris.
// The massless bodies follow motions whose exact expression is known, because
// their intrinsic accelerations are chosen accordingly.  Times are in sixteenths
// of the step of the ephemeris.
#include <algorithm>
#include <atomic>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "base/stoppable_thread.hpp"
#include "ephemeris_ops.hpp"
#include "geometry/grassmann.hpp"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/integration_parameters.hpp"
#include "seq_driver.hpp"

namespace verif {

using namespace principia::base::_stoppable_thread;
using namespace principia::integrators::
    _embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::
    _embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::geometry::_grassmann;
using namespace principia::physics::_discrete_trajectory;

using Trajectory = DiscreteTrajectory<World>;
using Instance = Integrator<Eph::NewtonianMotionEquation>::Instance;

constexpr double kD = EphemerisFactory::kDistance;
constexpr double kRadius = 0.3 * kD;

struct V3 {
  double x = 0;
  double y = 0;
  double z = 0;
  friend V3 operator+(V3 const& a, V3 const& b) {
    return {a.x + b.x, a.y + b.y, a.z + b.z};
  }
  friend V3 operator-(V3 const& a, V3 const& b) {
    return {a.x - b.x, a.y - b.y, a.z - b.z};
  }
  friend V3 operator*(double const k, V3 const& a) {
    return {k * a.x, k * a.y, k * a.z};
  }
  double norm() const { return std::sqrt(x * x + y * y + z * z); }
};

inline std::string Code(absl::Status const& status) {
  switch (status.code()) {
    case absl::StatusCode::kOk: return "ok";
    case absl::StatusCode::kCancelled: return "cancelled";
    case absl::StatusCode::kOutOfRange: return "range";
    case absl::StatusCode::kResourceExhausted: return "steps";
    case absl::StatusCode::kFailedPrecondition: return "vanishing";
    case absl::StatusCode::kDeadlineExceeded: return "deadline";
    default: return "other";
  }
}

inline std::string Cmp(Instant const& a, Instant const& b) {
  return a < b ? "lt" : a == b ? "eq" : "gt";
}

class FlowsDriver {
 public:
  static constexpr int kTrajectories = 4;
  static constexpr int kInstances = 2;

  explicit FlowsDriver(Rng& rng) : rng_(rng) {
    constexpr int step_days[] = {1, 10, 30};
    options_.step_days = step_days[rng_(3)];
    options_.bodies = 2;
    options_.integrator = rng_(4);
    options_.period = rng_(150, 400);
    options_.radius = kRadius;
    factory_ = std::make_unique<EphemerisFactory>(options_);
    ephemeris_ = factory_->Make();
    w_ = 2 * M_PI / (options_.period * (factory_->step() / Second));
  }

  // The motions.
  enum Kind {
    kRigid,   // Without intrinsic acceleration.
    kCircle,  // Around the barycentre.
    kInside,  // In body 1.
    kOutside,  // Near body 1.
    kMixed,   // Sometimes in body 1.
    kWall,    // The intrinsic acceleration is singular.
    kKinds,
  };

  struct T {
    std::unique_ptr<Trajectory> t;
    Kind kind = kRigid;
    double phase = 0;
    double a = 0;  // In units of kD.
    double b = 0;
    int wall = std::numeric_limits<int>::max();
    // What was observed.
    std::vector<std::pair<Instant, std::string>> points;
    int instance = -1;
    bool grid = true;  // The last time is a multiple of a sixteenth.
  };

  struct I {
    std::unique_ptr<Instance> instance;
    std::vector<int> ts;
    int start = 0;
    int step = 16;
    bool multi = false;
    // To do it again.
    int integrator = 0;
    Instant goal;  // The latest.
    std::vector<DegreesOfFreedom<World>> initial;
    std::vector<std::string> hashes;
    Eph::IntrinsicAccelerations intrinsics;
  };

  Instant At(int const t16) const { return factory_->At(t16 / 16.0); }
  double Seconds(Instant const& t) const {
    return (t - factory_->At(0)) / Second;
  }
  double Steps(double const s) const { return s / (factory_->step() / Second); }

  V3 Body(int const i, double const s) const {
    double const r = i == 0 ? -EphemerisFactory::kRatio * kD
                            : (1 - EphemerisFactory::kRatio) * kD;
    return {r * std::cos(w_ * s), r * std::sin(w_ * s), 0};
  }

  double Mu(int const i) const {
    return factory_->Mu(i) / (Metre * Metre * Metre / (Second * Second));
  }

  // The exact motion: position, velocity, acceleration.
  struct Exact {
    V3 q;
    V3 v;
    V3 a;
  };
  Exact Motion(T const& t, double const s) const {
    auto const circle = [&](double const r, double const w, double const phase) {
      double const c = r * std::cos(w * s + phase);
      double const d = r * std::sin(w * s + phase);
      return Exact{{c, d, 0}, {-w * d, w * c, 0}, {-w * w * c, -w * w * d, 0}};
    };
    switch (t.kind) {
      case kRigid: {
        // The equilateral point.
        double const x = 0.5 - EphemerisFactory::kRatio;
        double const y = std::sqrt(3) / 2;
        return circle(kD * std::hypot(x, y), w_, std::atan2(y, x));
      }
      case kCircle:
      case kWall:
        return circle(t.a * kD, t.b * w_, t.phase);
      default: {
        auto e = circle((1 - EphemerisFactory::kRatio) * kD, w_, 0);
        double const w = 0.7 * w_;
        double const c = std::cos(w * s + t.phase);
        double const d = std::sin(w * s + t.phase);
        e.q.z = kD * (t.a + t.b * c);
        e.v.z = -kD * t.b * w * d;
        e.a.z = -kD * t.b * w * w * c;
        return e;
      }
    }
  }

  V3 Intrinsic(T const& t, Instant const& instant) const {
    double const s = Seconds(instant);
    if (t.wall != std::numeric_limits<int>::max() && instant > At(t.wall)) {
      return {1e30, 0, 0};
    }
    auto const e = Motion(t, s);
    V3 a = e.a;
    for (int i = 0; i < 2; ++i) {
      V3 const r = Body(i, s) - e.q;
      double const n = r.norm();
      a = a - Mu(i) / (n * n * n) * r;
    }
    return a;
  }

  static Vector<Acceleration, World> ToAcceleration(V3 const& a) {
    auto const unit = Metre / (Second * Second);
    return Vector<Acceleration, World>({a.x * unit, a.y * unit, a.z * unit});
  }

  void Stop() {
    if (--stop_after_ == 0) {
      stopped_ = true;
      source_.request_stop();
    }
  }

  Eph::IntrinsicAcceleration MakeIntrinsic(int const k) {
    T const& t = ts_[k];
    if (t.kind == kRigid) {
      return nullptr;
    }
    return [this, &t](Instant const& instant) {
      Stop();
      return ToAcceleration(Intrinsic(t, instant));
    };
  }

  Eph::GeneralizedIntrinsicAcceleration MakeGeneralized(int const k,
                                                        double const weight) {
    T const& t = ts_[k];
    if (t.kind == kRigid && weight == 0) {
      return nullptr;
    }
    return [this, &t, weight](Instant const& instant,
                              DegreesOfFreedom<World> const& dof) {
      Stop();
      V3 a = t.kind == kRigid ? V3{} : Intrinsic(t, instant);
      if (weight != 0) {
        auto const e = Motion(t, Seconds(instant));
        auto const v = dof.velocity().coordinates();
        V3 const dv = V3{v.x / (Metre / Second),
                         v.y / (Metre / Second),
                         v.z / (Metre / Second)} -
                      e.v;
        a = a + weight * w_ * V3{-dv.y, dv.x, 0};
      }
      return ToAcceleration(a);
    };
  }

  // The instability of the motions.
  static double Growth(T const& t) {
    switch (t.kind) {
      case kInside:
      case kMixed: return 50;
      case kOutside: return 12;
      default: return 6;
    }
  }

  // Relative to the size and speed of the system.
  double Distance(T const& t,
                  Instant const& instant,
                  DegreesOfFreedom<World> const& dof) const {
    auto const e = Motion(t, Seconds(instant));
    auto const q = (dof.position() - World::origin).coordinates();
    auto const v = dof.velocity().coordinates();
    return (V3{q.x / Metre, q.y / Metre, q.z / Metre} - e.q).norm() / kD +
           (V3{v.x / (Metre / Second),
               v.y / (Metre / Second),
               v.z / (Metre / Second)} -
            e.v).norm() /
               (kD * w_);
  }

  // The depth in body 1 between two times (negative outside), as an interval.
  std::pair<double, double> Depth(T const& t,
                                  double const s1,
                                  double const s2) const {
    if (t.kind == kRigid || t.kind == kCircle || t.kind == kWall) {
      return {-1, -1};
    }
    double const slack = 0.01;
    double const limit = 0.99 * kRadius / kD;
    double min = 1e300;
    double max = -1e300;
    for (int i = 0; i <= 20; ++i) {
      double const z =
          std::abs(Motion(t, s1 + (s2 - s1) * i / 20).q.z) / kD;
      min = std::min(min, z);
      max = std::max(max, z);
    }
    return {limit - max - slack, limit - min + slack};
  }

  static std::string PointHash(Instant const& time,
                               DegreesOfFreedom<World> const& dof) {
    Hasher h;
    auto const q = (dof.position() - World::origin).coordinates();
    auto const v = dof.velocity().coordinates();
    h((time - Instant()) / Second);
    for (auto const& c : {q.x, q.y, q.z}) h(c / Metre);
    for (auto const& c : {v.x, v.y, v.z}) h(c / (Metre / Second));
    return h.text();
  }

  // Looks at the points appended to a trajectory.  The others must not have
  // changed.
  struct Delta {
    bool prefix = true;
    bool mono = true;
    std::vector<Instant> times;
    std::vector<std::string> hashes;
    double error = 0;
  };
  Delta Look(int const k) {
    T& t = ts_[k];
    Delta delta;
    int i = 0;
    for (auto const& [time, dof] : *t.t) {
      auto const hash = PointHash(time, dof);
      if (i < t.points.size()) {
        delta.prefix &= t.points[i].first == time && t.points[i].second == hash;
      } else {
        delta.mono &= t.points.empty() || t.points.back().first < time;
        delta.times.push_back(time);
        delta.hashes.push_back(hash);
        delta.error = std::max(delta.error, Distance(t, time, dof));
        t.points.emplace_back(time, hash);
      }
      ++i;
    }
    delta.prefix &= i >= t.points.size();
    return delta;
  }

  bool OthersUnchanged(std::vector<int> const& except) {
    bool ok = true;
    for (int k = 0; k < kTrajectories; ++k) {
      if (ts_[k].t != nullptr &&
          std::find(except.begin(), except.end(), k) == except.end()) {
        auto const delta = Look(k);
        ok &= delta.prefix && delta.times.empty();
      }
    }
    return ok;
  }

  // In steps; it is a multiple of the step, or -1 if empty.
  int TMax() const {
    if (ephemeris_->empty()) {
      return -1;
    }
    double const t = (ephemeris_->t_max() - factory_->At(0)) / factory_->step();
    return t == std::round(t) ? static_cast<int>(std::lround(t)) : -2;
  }

  // Runs the function, possibly in a thread that is stopped: if `stop` is 1,
  // before the function, and if it is n, when the intrinsic acceleration has
  // been called n - 1 times.
  absl::Status RunStoppable(int const stop,
                            std::function<absl::Status()> const& f) {
    stopped_ = stop == 1;
    stop_after_ = 0;
    if (stop == 0) {
      return f();
    }
    absl::Status status;
    std::exception_ptr exception;
    std::atomic<bool> go = false;
    std::jthread thread = MakeStoppableThread([&]() {
      while (!go) {}
      try {
        status = f();
      } catch (...) {
        exception = std::current_exception();
      }
    });
    source_ = thread.get_stop_source();
    stop_after_ = stop - 1;
    if (stop == 1) {
      thread.request_stop();
    }
    go = true;
    thread.join();
    if (exception != nullptr) {
      std::rethrow_exception(exception);
    }
    stop_after_ = 0;
    return status;
  }

  int PickStop() { return rng_.Chance(8) ? rng_(1, 40) : 0; }

  void NewTrajectory(int const k) {
    T& t = ts_[k];
    Release(t.instance);
    t = T{};
    t.kind = static_cast<Kind>(rng_(kKinds));
    t.phase = rng_(628) / 100.0;
    switch (t.kind) {
      case kCircle:
        t.a = rng_(15, 30) / 10.0;
        t.b = rng_(2, 20) / 10.0 * (rng_.Chance(50) ? 1 : -1);
        break;
      case kInside: t.a = 0.22; t.b = 0.03; break;
      case kOutside: t.a = 0.6; t.b = 0.1; break;
      case kMixed: t.a = 0.3; t.b = 0.06; break;
      case kWall:
        t.a = 1.8;
        t.b = 0.5;
        break;
      default: break;
    }
    int const t_max = std::max(0, TMax()) * 16;
    int time = rng_.Chance(70) ? rng_(0, t_max) : rng_(0, 60 * 16);
    if (rng_.Chance(60)) {
      // To let instances have several trajectories.
      int const other = rng_(kTrajectories);
      if (ts_[other].t != nullptr && ts_[other].grid) {
        time = Round(ts_[other].points.back().first);
      }
    }
    if (t.kind == kWall) {
      t.wall = time + rng_(1, 30 * 16);
    }
    t.t = std::make_unique<Trajectory>();
    auto const e = Motion(t, Seconds(At(time)));
    t.t->Append(
        At(time),
        {World::origin + Displacement<World>({e.q.x * Metre,
                                              e.q.y * Metre,
                                              e.q.z * Metre}),
         Velocity<World>({e.v.x * Metre / Second,
                          e.v.y * Metre / Second,
                          e.v.z * Metre / Second})}).IgnoreError();
    Look(k);
    Ev("new", {{"k", k + 1},
               {"t", time},
               {"wall", t.wall == std::numeric_limits<int>::max() ? 1000000000
                                                                  : t.wall},
               {"others", OthersUnchanged({})}});
  }

  int Round(Instant const& t) const {
    return std::lround(16 * ((t - factory_->At(0)) / factory_->step()));
  }

  // Does the flow again, in one go, and compares.
  void Again(I const& instance) {
    if (instance.instance == nullptr || instance.hashes.empty()) {
      return;
    }
    std::vector<std::unique_ptr<Trajectory>> copies;
    std::vector<not_null<Trajectory*>> trajectories;
    for (auto const& dof : instance.initial) {
      copies.push_back(std::make_unique<Trajectory>());
      copies.back()->Append(At(instance.start), dof).IgnoreError();
      trajectories.push_back(copies.back().get());
    }
    EphemerisOptions options;
    options.integrator = instance.integrator;
    auto const again = ephemeris_->NewInstance(
        trajectories,
        instance.intrinsics,
        Eph::FixedStepParameters(EphemerisFactory(options).integrator(),
                                 instance.step / 16.0 * factory_->step()));
    ephemeris_->FlowWithFixedStep(instance.goal, *again).IgnoreError();
    std::vector<std::string> hashes;
    for (int j = 0; j < copies.size(); ++j) {
      int p = 0;
      for (auto const& [time, dof] : *copies[j]) {
        if (p > 0) {
          if (j == 0) hashes.emplace_back();
          if (p <= hashes.size()) {
            hashes[p - 1] += PointHash(time, dof);
          }
        }
        ++p;
      }
    }
    Ev("again", {{"n", static_cast<int>(hashes.size())},
                 {"same", hashes == instance.hashes}});
  }

  void Release(int const i) {
    if (i >= 0 && is_[i].instance != nullptr) {
      Again(is_[i]);
      for (int const k : is_[i].ts) {
        ts_[k].instance = -1;
      }
      is_[i] = I{};
      Ev("release", {{"i", i + 1}});
    }
  }

  void Adaptive(int const k) {
    T& t = ts_[k];
    Instant const last = t.points.back().first;
    int const last16 = Round(last);
    int goal = last16;
    switch (rng_(12)) {
      case 0: goal += rng_(-20, 0); break;
      case 1: break;
      case 2:
      case 3: goal += rng_(1, 8); break;
      case 4: goal = std::max(0, TMax()) * 16 + rng_(-8, 8); break;
      case 5: goal += rng_(1, 100 * 16); break;
      default: goal += rng_(1, 40 * 16); break;
    }
    if (t.kind == kWall && rng_.Chance(30)) {
      goal = t.wall + rng_(-1, 1);
    }
    if (goal < last16 && rng_.Chance(80)) {
      goal = last16 + rng_(1, 200);
    }
    if (rng_.Chance(85) && At(goal) < last) {
      return;
    }
    bool const unlimited = rng_.Chance(60);
    // The behaviour when the ephemeris cannot reach the trajectory is not
    // specified.
    if (!unlimited && At(goal) > last &&
        (ephemeris_->empty() || last >= ephemeris_->t_max())) {
      return;
    }
    int const limit = rng_(1, 20);
    constexpr int max_steps[] = {1, 2, 5, 20, 100, 1000};
    int const max = max_steps[rng_(6)];
    bool const generalized = rng_.Chance(40);
    int const method = rng_(2);
    double const weight =
        generalized && method == 1 && rng_.Chance(50) ? 0.2 : 0;
    constexpr double tolerances[] = {1e-4, 1e-6, 1e-8};
    double const tolerance = tolerances[rng_(3)];
    Length const length = tolerance * kD * Metre;
    Speed const speed = tolerance * kD * w_ * Metre / Second;
    int const before = TMax();
    int const stop = PickStop();
    Ev("adaptive",
       {{"k", k + 1},
        {"t", goal},
        {"cmp", Cmp(At(goal), last)},
        {"before", before},
        {"max", max},
        {"limit", unlimited ? 1000000 : limit},
        {"stop", stop == 1}});
    // The deviation from the exact motion is due to this flow and the previous
    // ones.
    double const initial_error = Distance(t, last, t.t->back().degrees_of_freedom);
    auto const status = RunStoppable(stop, [&]() {
      std::int64_t const n =
          unlimited ? Eph::unlimited_max_ephemeris_steps : limit;
      if (generalized) {
        using M = Eph::GeneralizedNewtonianMotionEquation;
        auto const& integrator =
            method == 0
                ? static_cast<AdaptiveStepSizeIntegrator<M> const&>(
                      EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
                          Fine1987RKNG34,
                          M>())
                : static_cast<AdaptiveStepSizeIntegrator<M> const&>(
                      EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
                          Fine1987RKNG45,
                          M>());
        Eph::GeneralizedAdaptiveStepParameters const parameters(
            integrator, max, length, speed);
        return unlimited ? ephemeris_->FlowWithAdaptiveStep(
                               t.t.get(),
                               MakeGeneralized(k, weight),
                               At(goal),
                               parameters)
                         : ephemeris_->FlowWithAdaptiveStep(
                               t.t.get(),
                               MakeGeneralized(k, weight),
                               At(goal),
                               parameters,
                               n);
      } else {
        using M = Eph::NewtonianMotionEquation;
        Eph::AdaptiveStepParameters const parameters(
            EmbeddedExplicitRungeKuttaNyströmIntegrator<
                DormandالمكاوىPrince1986RKN434FM,
                M>(),
            max,
            length,
            speed);
        return unlimited
                   ? ephemeris_->FlowWithAdaptiveStep(
                         t.t.get(), MakeIntrinsic(k), At(goal), parameters)
                   : ephemeris_->FlowWithAdaptiveStep(
                         t.t.get(), MakeIntrinsic(k), At(goal), parameters, n);
      }
    });
    auto const delta = Look(k);
    Instant const back = t.points.back().first;
    bool within = true;
    for (auto const& time : delta.times) {
      within &= time <= At(goal) && time <= ephemeris_->t_max();
    }
    int const n = delta.times.size();
    double const span = Steps(Seconds(back) - Seconds(last)) / options_.period;
    double const scale =
        tolerance * (n + 1) * std::exp(Growth(t) * span) + 1e-6 +
        initial_error * 3 * std::exp(Growth(t) * span);
    max_ = std::max(max_, delta.error / scale);
    if (getenv("VERIF_CALIBRATE") && delta.error > scale) {
      fprintf(stderr, "CAL %d %d %d %g %g %g %g %d\n", t.kind, generalized,
              method, tolerance, delta.error, initial_error, span, n);
    }
    t.grid = back == At(Round(back));
    Ev("flowed",
       {{"k", k + 1},
        {"code", Code(status)},
        {"stopped", stopped_.load()},
        {"tmax", TMax()},
        {"n", n},
        {"mono", delta.mono},
        {"prefix", delta.prefix},
        {"within", within},
        {"cmp", Cmp(back, At(goal))},
        {"end", ephemeris_->empty() ? "none"
                                    : Cmp(back, ephemeris_->t_max())},
        {"close", delta.error <= scale || scale > 0.003},
        {"others", OthersUnchanged({k})}});
  }

  void NewInstance(int const i) {
    int const k = rng_(kTrajectories);
    if (ts_[k].t == nullptr || ts_[k].instance >= 0 || !ts_[k].grid ||
        ts_[k].kind == kWall) {
      return;
    }
    Release(i);
    Instant const last = ts_[k].points.back().first;
    I& instance = is_[i];
    instance.ts = {k};
    for (int j = 0; j < kTrajectories; ++j) {
      if (j != k && ts_[j].t != nullptr && ts_[j].instance < 0 &&
          ts_[j].points.back().first == last && ts_[j].kind != kWall &&
          rng_.Chance(80)) {
        instance.ts.push_back(j);
      }
    }
    instance.start = Round(last);
    constexpr int steps[] = {4, 8, 16, 32};
    instance.step = steps[rng_(4)];
    EphemerisOptions options;
    options.integrator = rng_(4);
    // Where all the stages are at the ends of the steps.
    instance.multi = options.integrator % 2 == 1;
    instance.integrator = options.integrator;
    instance.goal = last;
    auto const& integrator = EphemerisFactory(options).integrator();
    std::vector<not_null<Trajectory*>> trajectories;
    Eph::IntrinsicAccelerations intrinsics;
    bool all_rigid = true;
    for (int const j : instance.ts) {
      trajectories.push_back(ts_[j].t.get());
      intrinsics.push_back(MakeIntrinsic(j));
      instance.initial.push_back(ts_[j].t->back().degrees_of_freedom);
      all_rigid &= ts_[j].kind == kRigid;
    }
    if (all_rigid && rng_.Chance(50)) {
      intrinsics = Eph::NoIntrinsicAccelerations;
    }
    instance.intrinsics = intrinsics;
    int const before = TMax();
    std::vector<int> ks;
    for (int const j : instance.ts) ks.push_back(j + 1);
    int const stop = rng_.Chance(5) ? 1 : 0;
    Ev("instance", {{"i", i + 1},
                    {"ks", ks},
                    {"start", instance.start},
                    {"step", instance.step},
                    {"points", options.integrator == 1   ? 12
                               : options.integrator == 3 ? 8
                                                         : 1},
                    {"before", before},
                    {"stop", stop == 1}});
    auto const status = RunStoppable(stop, [&]() {
      Eph::FixedStepParameters const parameters(
          integrator, instance.step / 16.0 * factory_->step());
      if (stop == 0 && rng_.Chance(50)) {
        instance.instance =
            ephemeris_->NewInstance(trajectories, intrinsics, parameters);
        return absl::OkStatus();
      }
      auto result = ephemeris_->StoppableNewInstance(
          trajectories, intrinsics, parameters);
      if (result.ok()) {
        instance.instance = std::move(result.value());
      }
      return result.status();
    });
    Ev("created", {{"i", i + 1},
                   {"code", Code(status)},
                   {"tmax", TMax()},
                   {"others", OthersUnchanged({})}});
    if (instance.instance == nullptr) {
      instance = I{};
    } else {
      for (int const j : instance.ts) ts_[j].instance = i;
    }
  }

  void Fixed(int const i) {
    I& instance = is_[i];
    int const k0 = instance.ts[0];
    Instant const last = ts_[k0].points.back().first;
    int const last16 = Round(last);
    int goal = last16;
    switch (rng_(10)) {
      case 0: goal += rng_(-40, 0); break;
      case 1: break;
      case 2: goal += instance.step; break;
      case 3:
      case 4: goal += rng_(1, 2 * instance.step); break;
      default: goal += rng_(1, 20 * instance.step); break;
    }
    int const before = TMax();
    int const stop = PickStop();
    Ev("fixed", {{"i", i + 1},
                 {"t", goal},
                 {"before", before},
                 {"stop", stop == 1}});
    auto const status = RunStoppable(stop, [&]() {
      return ephemeris_->FlowWithFixedStep(At(goal), *instance.instance);
    });
    std::vector<int> points;
    bool ok = true;
    bool close = true;
    bool known = true;  // Whether the positions are known.
    std::vector<Delta> deltas;
    double error = 0;
    for (int const k : instance.ts) {
      double const initial_error =
          Distance(ts_[k], ts_[k].points.front().first,
                   ts_[k].t->front().degrees_of_freedom);
      deltas.push_back(Look(k));
      auto const& delta = deltas.back();
      ok &= delta.prefix && delta.mono && delta.times == deltas[0].times;
      double const span =
          Steps(Seconds(ts_[k].points.back().first) -
                Seconds(ts_[k].points.front().first)) /
          options_.period;
      double const scale = (initial_error + 1e-4) * 3 * std::exp(Growth(ts_[k]) * span);
      known &= scale <= 0.003;
      close &= delta.error <= scale || scale > 0.003;
      error = std::max(error, delta.error);
      if (getenv("VERIF_CALIBRATE") && delta.error > scale) {
        fprintf(stderr, "CALF %d %g %g %g\n", ts_[k].kind, delta.error,
                initial_error, span);
      }
    }
    for (int p = 0; p < deltas[0].times.size(); ++p) {
      instance.hashes.emplace_back();
      for (auto const& delta : deltas) {
        if (p < delta.hashes.size()) {
          instance.hashes.back() += delta.hashes[p];
        }
      }
      double const n =
          (16 * ((deltas[0].times[p] - factory_->At(0)) / factory_->step()) -
           instance.start) /
          instance.step;
      points.push_back(n == std::round(n) ? static_cast<int>(std::lround(n))
                                          : -1);
    }
    // Whether some evaluation must, or may, have been in a collision.
    bool must = false;
    bool may = false;
    double const p = 16 *
                     (16 * ((instance.instance->time().value -
                             factory_->At(0)) /
                            factory_->step()) -
                      instance.start) /
                     instance.step;
    instance.goal =
        std::max(instance.goal,
                 stopped_ ? ts_[k0].points.back().first : At(goal));
    for (int const k : instance.ts) {
      auto const& all = ts_[k].points;
      int const first = all.size() - points.size();
      for (int p = first; p < all.size(); ++p) {
        auto const [min, max] = Depth(
            ts_[k], Seconds(all[p - 1].first), Seconds(all[p].first));
        must |= min > 0;
      }
      // The flow may have gone beyond or behind, e.g., to start.
      auto const [min, max] =
          Depth(ts_[k],
                Seconds(all[std::max(0, first - 1)].first) -
                    (factory_->step() / Second) * instance.step / 16.0,
                std::max(Seconds(At(goal)), Seconds(all.back().first)) +
                    (factory_->step() / Second) * instance.step / 16.0);
      may |= max > 0;
    }
    Ev("stepped",
       {{"i", i + 1},
        {"p", std::abs(p - std::round(p)) < 1e-6
                  ? static_cast<int>(std::lround(p))
                  : -1},
        {"code", Code(status)},
        {"stopped", stopped_.load()},
        {"tmax", TMax()},
        {"ps", points},
        {"ok", ok},
        {"close", close},
        {"must", must && known},
        {"may", may || !known},
        {"d", std::to_string(error)},
        {"others", OthersUnchanged(instance.ts)}});
  }

  void Run() {
    Cfg({{"kind", "flows"},
         {"step", options_.step_days},
         {"integrator", options_.integrator},
         {"period", std::to_string(options_.period)}});
    int const ops = rng_(5, 40);
    for (int o = 0; o < ops; ++o) {
      int const k = rng_(kTrajectories);
      int const i = rng_(kInstances);
      if (rng_.Chance(10) || ts_[k].t == nullptr) {
        NewTrajectory(k);
      } else if (rng_.Chance(12)) {
        NewInstance(i);
      } else if (is_[i].instance != nullptr && rng_.Chance(55)) {
        Fixed(i);
      } else if (ts_[k].instance < 0) {
        Adaptive(k);
      } else if (rng_.Chance(10)) {
        Release(ts_[k].instance);
      } else if (rng_.Chance(20)) {
        Instant const t = At(rng_(0, 200 * 16));
        if (ephemeris_->empty() || t < ephemeris_->t_max() + 30 * factory_->step()) {
          int const before = TMax();
          ephemeris_->Prolong(t).IgnoreError();
          Ev("prolong", {{"t", Round(t)},
                         {"before", before},
                         {"tmax", TMax()},
                         {"others", OthersUnchanged({})}});
        }
      }
    }
    Release(0);
    Release(1);
    if (getenv("VERIF_CALIBRATE")) {
      fprintf(stderr, "CALM %g\n", max_);
    }
  }

 private:
  Rng& rng_;
  EphemerisOptions options_;
  std::unique_ptr<EphemerisFactory> factory_;
  std::unique_ptr<Eph> ephemeris_;
  double w_ = 0;
  double max_ = 0;
  int stop_after_ = 0;
  std::atomic<bool> stopped_ = false;
  std::stop_source source_;
  T ts_[kTrajectories];
  I is_[kInstances];
};

}  // namespace verif

int main(int argc, char** argv) {
  return verif::SeqMain(argc,
                        argv,
                        [&](std::int64_t const index, verif::Rng& rng) {
                          auto const driver =
                              std::make_unique<verif::FlowsDriver>(rng);
                          driver->Run();
                        });
}
