// Drives the integrators: fixed-step and adaptive ones, on problems whose exact
// solution is the uniform circular motion (or its projection).
#include <cmath>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "ephemeris_ops.hpp"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/explicit_linear_multistep_integrator.hpp"
#include "integrators/explicit_runge_kutta_integrator.hpp"
#include "integrators/ordinary_differential_equations.hpp"
#include "geometry/grassmann.hpp"
#include "seq_driver.hpp"
#include "serialization/integrators.pb.h"

namespace verif {

using namespace principia::integrators::
    _embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_integrator;
using namespace principia::integrators::
    _embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_explicit_linear_multistep_integrator;
using namespace principia::integrators::_explicit_runge_kutta_integrator;
using namespace principia::geometry::_grassmann;
using namespace principia::integrators::_ordinary_differential_equations;

using Special = SpecialSecondOrderDifferentialEquation<Position<World>>;
using General = ExplicitSecondOrderOrdinaryDifferentialEquation<Position<World>>;
using First =
    ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, Length, Speed>;

inline Instant const t0 = Instant() + 1024 * Second;
constexpr double kR = 1.0;  // In metres, the pulsation is 1 rad/s.

// The errors that the right-hand side returns.
struct Faults {
  double from = 1e300;  // In seconds, in the direction of the integration.
  double to = 1e300;
  // There is no error at the time where the integration starts: the evaluation
  // may not be part of a step.
  std::optional<Instant> except;
  absl::StatusCode code = absl::StatusCode::kOk;
  int direction = 1;
  bool any = false;    // Since the start of the integration.
  bool since = false;  // Since last read.
  bool Since() {
    bool const s = since;
    since = false;
    return s;
  }
  absl::Status Evaluate(Instant const& t) {
    double const s = direction * ((t - t0) / Second);
    if (s >= from && s <= to && t != except) {
      any = true;
      since = true;
      return absl::Status(code, "injected");
    }
    return absl::OkStatus();
  }
};

inline std::string Code(absl::Status const& status) {
  switch (status.code()) {
    case absl::StatusCode::kOk: return "ok";
    case absl::StatusCode::kAborted: return "aborted";
    case absl::StatusCode::kOutOfRange: return "range";
    case absl::StatusCode::kResourceExhausted: return "steps";
    case absl::StatusCode::kFailedPrecondition: return "vanishing";
    default: return "other";
  }
}

template<typename ODE>
struct Problem;

// If 0, the acceleration of the generalized equations doesn't depend on the
// velocity.
inline double velocity_weight = 0.25;

template<typename ODE>
struct SecondOrderProblem {
  using State = typename ODE::State;
  static Instant Value(State const& s) { return s.time.value; }
  static Time Error(State const& s) { return s.time.error; }
  static State Initial() {
    return State(t0,
                 {World::origin +
                  Displacement<World>({kR * Metre, 0 * Metre, 0 * Metre})},
                 {Velocity<World>({0 * Metre / Second,
                                   kR * Metre / Second,
                                   0 * Metre / Second})});
  }
  static void Hash(State const& s, Hasher& h) {
    h((s.time.value - t0) / Second);
    h(s.time.error / Second);
    for (auto const& q : s.positions) {
      for (auto const& p : {q.value - World::origin, q.error}) {
        h(p.coordinates().x / Metre);
        h(p.coordinates().y / Metre);
        h(p.coordinates().z / Metre);
      }
    }
    for (auto const& v : s.velocities) {
      for (auto const& p : {v.value, v.error}) {
        h(p.coordinates().x / (Metre / Second));
        h(p.coordinates().y / (Metre / Second));
        h(p.coordinates().z / (Metre / Second));
      }
    }
  }
  static double Distance(State const& s) {
    double const t = (s.time.value - t0) / Second;
    auto const q = (s.positions[0].value - World::origin).coordinates();
    auto const v = s.velocities[0].value.coordinates();
    return std::abs(q.x / Metre - kR * std::cos(t)) +
           std::abs(q.y / Metre - kR * std::sin(t)) + std::abs(q.z / Metre) +
           std::abs(v.x / (Metre / Second) + kR * std::sin(t)) +
           std::abs(v.y / (Metre / Second) - kR * std::cos(t)) +
           std::abs(v.z / (Metre / Second));
  }
  static double Norm(typename State::Error const& e) {
    return e.position_error[0].Norm() / Metre +
           e.velocity_error[0].Norm() / (Metre / Second);
  }
};

inline Vector<Acceleration, World> Radial(Instant const& t) {
  double const s = (t - t0) / Second;
  return Vector<Acceleration, World>(
      {-kR * std::cos(s) * Metre / Second / Second,
       -kR * std::sin(s) * Metre / Second / Second,
       0 * Metre / Second / Second});
}

template<>
struct Problem<Special> : SecondOrderProblem<Special> {
  static Special Make(Faults& faults) {
    Special ode;
    ode.compute_acceleration =
        [&faults](Instant const& t,
                  std::vector<Position<World>> const& q,
                  std::vector<Vector<Acceleration, World>>& a) {
          a[0] = -0.75 * (q[0] - World::origin) / (Second * Second) +
                 0.25 * Radial(t);
          return faults.Evaluate(t);
        };
    return ode;
  }
};

template<>
struct Problem<General> : SecondOrderProblem<General> {
  static General Make(Faults& faults) {
    General ode;
    ode.compute_acceleration =
        [&faults](Instant const& t,
                  std::vector<Position<World>> const& q,
                  std::vector<Velocity<World>> const& v,
                  std::vector<Vector<Acceleration, World>>& a) {
          auto const c = v[0].coordinates();
          a[0] = (velocity_weight - 0.75) * (q[0] - World::origin) /
                     (Second * Second) +
                 0.25 * Radial(t) +
                 velocity_weight *
                     Velocity<World>({-c.y, c.x, 0 * Metre / Second}) / Second;
          return faults.Evaluate(t);
        };
    return ode;
  }
};

template<>
struct Problem<First> {
  using State = First::State;
  static Instant Value(State const& s) { return s.s.value; }
  static Time Error(State const& s) { return s.s.error; }
  static State Initial() { return State(t0, {kR * Metre, 0 * Metre / Second}); }
  static First Make(Faults& faults) {
    First ode;
    ode.compute_derivative = [&faults](Instant const& t,
                                       First::DependentVariables const& y,
                                       First::DependentVariableDerivatives& yʹ) {
      auto const& [q, v] = y;
      auto& [qʹ, vʹ] = yʹ;
      double const s = (t - t0) / Second;
      qʹ = 0.5 * v - 0.5 * kR * std::sin(s) * Metre / Second;
      vʹ = -0.75 * q / (Second * Second) -
           0.25 * kR * std::cos(s) * Metre / Second / Second;
      return faults.Evaluate(t);
    };
    return ode;
  }
  static void Hash(State const& s, Hasher& h) {
    auto const& [q, v] = s.y;
    h((s.s.value - t0) / Second);
    h(s.s.error / Second);
    h(q.value / Metre);
    h(q.error / Metre);
    h(v.value / (Metre / Second));
    h(v.error / (Metre / Second));
  }
  static double Distance(State const& s) {
    auto const& [q, v] = s.y;
    double const t = (s.s.value - t0) / Second;
    return std::abs(q.value / Metre - kR * std::cos(t)) +
           std::abs(v.value / (Metre / Second) + kR * std::sin(t));
  }
  static double Norm(State::Error const& e) {
    auto const& [q, v] = e;
    return std::abs(q / Metre) + std::abs(v / (Metre / Second));
  }
};

template<typename ODE>
std::string HashText(typename ODE::State const& s) {
  Hasher h;
  Problem<ODE>::Hash(s, h);
  return h.text();
}

////////////////////////////////////////////////////////////////////////////////
// Fixed step.

// If true, the order of convergence is measured.
inline bool measure_order = false;

// Records the slopes of errors computed with 2ⁿ steps, n = 2, 3...
inline int Slope(std::vector<double> const& errors) {
  double best = 0;
  for (int i = 1; i < errors.size(); ++i) {
    if (errors[i] > 1e-11 && errors[i - 1] < 1) {
      best = std::max(best, std::log2(errors[i - 1] / errors[i]));
    }
  }
  return std::lround(10 * best);
}

inline std::string Scientific(double const x) {
  char buffer[40];
  std::snprintf(buffer, sizeof(buffer), "%.1e", x);
  return buffer;
}

struct FixedMethod {
  char const* name;
  bool multi;
  int points;  // The points needed by the startup, including the initial one.
  bool reuses;  // Whether it reuses an evaluation of the previous step.
  double constant;  // The error is below constant * h^order * (1 + t).
  int order;
};

template<typename ODE>
class FixedDriver {
 public:
  using P = Problem<ODE>;
  using Integ = FixedStepSizeIntegrator<ODE>;
  static constexpr int kInstances = 3;
  static constexpr bool serializable_ode = !std::is_same_v<ODE, First>;

  FixedDriver(Rng& rng, FixedMethod const& method, Integ const& integrator)
      : rng_(rng), method_(method), integrator_(integrator) {
    exact_ = rng_.Chance(75);
    h_ = exact_ ? rng_(4, 10) / 64.0 : rng_(50, 160) / 1001.0;
  }

  struct I {
    std::unique_ptr<typename Integrator<ODE>::Instance> instance;
    int direction = 1;
    int p16 = 0;
    bool started = false;
  };

  void Append(typename ODE::State const& s) {
    double const x = direction_ * ((P::Value(s) - t0) / Second) / h_;
    int const n = std::lround(x);
    double const error = P::Distance(s);
    double const t = n * h_;
    // The rounding errors of the multistep methods accumulate.
    double const floor =
        method_.multi ? 2e-14 * (10 + n) * (10 + n) : 1e-13 * (10 + n);
    max_ = std::max(
        max_, (error - floor) / (std::pow(h_, method_.order) * (1 + t)));
    double const tolerance =
        method_.constant * std::pow(h_, method_.order) * (1 + t) + floor;
    // The interval between the points.
    double const dt = direction_ * ((P::Value(s) - last_) / Second);
    bool const even =
        n == last_n_ + 1 && std::abs(dt - h_) <= 2.3e-13 * (n < 10000);
    last_ = P::Value(s);
    last_n_ = n;
    points_.push_back(J(Fields{{"n", n},
                               {"hash", HashText<ODE>(s)},
                               {"close", error <= tolerance},
                               {"grid", std::abs(x - n) < 1e-9},
                               {"even", even},
                               {"err", faults_.Since()},
                               {"d", std::to_string(error)}}));
  }

  typename Integrator<ODE>::AppendState Appender() {
    return [this](typename ODE::State const& s) { Append(s); };
  }

  void New(int const k) {
    is_[k] = I{};
    is_[k].direction = !method_.multi && rng_.Chance(30) ? -1 : 1;
    Ev("new", {{"k", k + 1}, {"dir", is_[k].direction}});
    is_[k].instance =
        integrator_.NewInstance({P::Make(faults_), P::Initial()},
                                Appender(),
                                is_[k].direction * h_ * Second);
  }

  void Solve(int const k) {
    auto& i = is_[k];
    // In eighths of a step.
    int tf8 = i.p16 / 2;
    switch (rng_(10)) {
      case 0: tf8 += rng_(-20, 1); break;
      case 1:
      case 2:
      case 3: tf8 += rng_(1, 8); break;
      case 4: tf8 += rng_(8, 400); break;
      default: tf8 += rng_(1, 60); break;
    }
    if (tf8 <= i.p16 / 2 && rng_.Chance(90)) {
      tf8 = i.p16 / 2 + 1;
    }
    faults_ = {};
    faults_.direction = i.direction;
    if ((!method_.multi || i.started) && rng_.Chance(12)) {
      faults_.from = (i.p16 / 16 + rng_(10) + 0.3) * h_;
      faults_.to = faults_.from + h_ * rng_(1, 20) / 4.0;
      faults_.code = rng_.Chance(60) ? absl::StatusCode::kAborted
                                     : absl::StatusCode::kOutOfRange;
    }
    points_.clear();
    direction_ = i.direction;
    last_n_ = i.p16 / 16;
    last_ = P::Value(i.instance->state());
    if (method_.multi && !i.started) {
      // The startup has a finer step.
      last_ = t0 + i.direction * last_n_ * h_ * Second;
    }
    Ev("solve", {{"k", k + 1}, {"tf8", tf8}});
    Instant const t_final =
        t0 +
        i.direction * (tf8 / 8.0 + (exact_ ? 0 : 1.0 / 64)) * h_ * Second;
    auto const status = i.instance->Solve(t_final);
    auto const& state = i.instance->state();
    double const x16 =
        16 * i.direction * ((P::Value(state) - t0) / Second) / h_;
    int const p16 = std::lround(x16);
    Ev("solved",
       {{"k", k + 1},
        {"code", Code(status)},
        {"fault", faults_.any ? Code(absl::Status(faults_.code, "")) : "ok"},
        {"ps", points_},
        {"p16", std::abs(x16 - p16) < 1e-9 ? p16 : -1},
        {"hash", HashText<ODE>(state)}});
    i.p16 = p16;
    i.started |= p16 >= 16 * (method_.points - 1);
    faults_ = {};
  }

  void Clone(int const k, int const j) {
    Ev("clone", {{"k", k + 1}, {"j", j + 1}});
    auto clone = is_[k].instance->Clone();
    is_[j].direction = is_[k].direction;
    is_[j].p16 = is_[k].p16;
    is_[j].started = is_[k].started;
    is_[j].instance = std::move(clone);
    Look(j);
  }

  void Serialize(int const k, int const j) {
    if constexpr (serializable_ode) {
      Ev("clone", {{"k", k + 1}, {"j", j + 1}});
      principia::serialization::IntegratorInstance message;
      is_[k].instance->WriteToMessage(&message);
      principia::serialization::IntegratorInstance copy;
      copy.ParseFromString(message.SerializeAsString());
      auto clone = Integ::Instance::ReadFromMessage(
          copy, P::Make(faults_), Appender());
      is_[j].direction = is_[k].direction;
      is_[j].p16 = is_[k].p16;
      is_[j].started = is_[k].started;
      is_[j].instance = std::move(clone);
      Look(j);
    }
  }

  void Look(int const k) {
    auto const& state = is_[k].instance->state();
    double const x16 =
        16 * is_[k].direction * ((P::Value(state) - t0) / Second) / h_;
    Ev("look",
       {{"k", k + 1},
        {"p16", static_cast<int>(std::lround(x16))},
        {"hash", HashText<ODE>(state)}});
  }

  void Order() {
    Cfg({{"kind", "order"}, {"method", method_.name}});
    std::vector<double> errors;
    double const t = method_.order >= 10 ? 10 : 3;
    for (int n = method_.multi ? 16 : 4; n <= 512; n *= 2) {
      double error = 0;
      auto const instance = integrator_.NewInstance(
          {P::Make(faults_), P::Initial()},
          [&](typename ODE::State const& s) {
            error = std::max(error, P::Distance(s));
          },
          t / n * Second);
      instance->Solve(t0 + (t + 1e-6) * Second).IgnoreError();
      errors.push_back(error);
    }
    Ev("order",
       {{"method", method_.name},
        {"claimed", method_.order},
        {"slope", Slope(errors)},
        {"error", Scientific(errors[2])}});
  }

  void Run() {
    if (measure_order) {
      Order();
      return;
    }
    Cfg({{"kind", method_.multi ? "multi" : "one"},
         {"points", method_.points},
         {"exact", exact_},
         {"reuses", method_.reuses},
         {"h", std::to_string(h_)},
         {"method", method_.name}});
    int const ops = rng_(4, 40);
    for (int o = 0; o < ops; ++o) {
      int const k = rng_(kInstances);
      if (is_[k].instance == nullptr || rng_.Chance(4)) {
        New(k);
      } else if (rng_.Chance(10)) {
        Clone(k, rng_(kInstances));
      } else if (serializable_ode && rng_.Chance(12)) {
        Serialize(k, rng_(kInstances));
      } else if (rng_.Chance(15)) {
        Look(k);
      } else if (is_[k].p16 < 16 * 300) {
        Solve(k);
      }
    }
    for (int k = 0; k < kInstances; ++k) {
      if (is_[k].instance != nullptr) Look(k);
    }
    if (getenv("VERIF_CALIBRATE")) {
      fprintf(stderr, "CAL %s %g\n", method_.name, max_);
    }
  }

 private:
  Rng& rng_;
  FixedMethod const method_;
  Integ const& integrator_;
  bool exact_;
  double h_;
  Faults faults_;
  int direction_ = 1;
  int last_n_ = 0;
  Instant last_;
  double max_ = 0;
  std::vector<J> points_;
  I is_[kInstances];
};

////////////////////////////////////////////////////////////////////////////////
// Adaptive step.

template<typename ODE>
class AdaptiveDriver {
 public:
  using P = Problem<ODE>;
  using Integ = AdaptiveStepSizeIntegrator<ODE>;
  static constexpr int kInstances = 3;
  static constexpr int kProblems = 2;
  static constexpr bool serializable_ode = !std::is_same_v<ODE, First>;

  AdaptiveDriver(Rng& rng, char const* const name, Integ const& integrator,
                 double const constant, int const order)
      : rng_(rng),
        name_(name),
        integrator_(integrator),
        constant_(constant),
        order_(order) {
    for (auto& s : settings_) {
      s.direction = rng_.Chance(35) ? -1 : 1;
      double const first[] = {0.001, 0.01, 0.1, 0.5, 1, 3, 20};
      s.first = s.direction * first[rng_(7)];
      double const safety[] = {0.5, 0.8, 0.9, 0.99};
      s.safety = safety[rng_(4)];
      int const max_steps[] = {1, 2, 3, 5, 10, 40, 80};
      s.max_steps = max_steps[rng_(7)];
      s.exact = rng_.Chance(50);
      double const tolerance[] = {1e-3, 1e-6, 1e-9};
      s.tolerance = tolerance[rng_(3)];
      s.adversity = rng_.Chance(40) ? rng_(5, 30) : 0;
      if (rng_.Chance(15)) {
        s.wall = rng_(1, 60) / 10.0;
      }
      if (rng_.Chance(30)) {
        s.fault_from = rng_(1, 80) / 10.0;
        s.fault_to = s.fault_from + rng_(1, 20) / 10.0;
        // The Runge-Kutta-Nyström integrators for special equations report the
        // errors but do not stop.
        s.fault_code = !std::is_same_v<ODE, Special> && rng_.Chance(50)
                           ? absl::StatusCode::kAborted
                           : absl::StatusCode::kOutOfRange;
      }
    }
  }

  struct Settings {
    int direction;
    double first;
    double safety;
    int max_steps;
    bool exact;
    double tolerance;
    int adversity;
    double wall = 1e300;  // No step crosses this.
    double fault_from = 1e300;
    double fault_to = 1e300;
    absl::StatusCode fault_code = absl::StatusCode::kOk;
  };

  struct I {
    std::unique_ptr<typename Integrator<ODE>::Instance> instance;
    int problem = 0;
    bool used = false;
    bool vanished = false;
  };

  double S(Instant const& t) const {
    return settings_[problem_].direction * ((t - t0) / Second);
  }

  double Ratio(Time const& h,
               typename ODE::State const& state,
               typename ODE::State::Error const& error) {
    auto const& s = settings_[problem_];
    double ratio = s.tolerance / (P::Norm(error) + 1e-300);
    ratio = std::min(ratio, 1e10);
    Instant const t = P::Value(state) + (P::Error(state) + h);
    if (s.adversity > 0) {
      Hasher hasher;
      hasher(h / Second);
      hasher(S(P::Value(state)));
      if ((hasher.h >> 20) % 100 < s.adversity) {
        ratio = std::min(ratio, 0.6);
      }
    }
    if (S(t) > s.wall) {
      ratio = std::min(ratio, 1e-3);
    }
    bool const accepted = ratio >= 1;
    double const a = s.direction * (h / Second);
    double const rest =
        s.direction * (((t_final_ - P::Value(state)) - P::Error(state)) /
                       Second);
    tries_.push_back(J(Fields{
        {"kind", accepted ? "A" : "R"},
        {"h", HText(h)},
        {"over", S(t) > S(t_final_)},
        {"first", tries_.empty() && a == std::abs(s.first)},
        {"same", a == last_h_},
        {"smaller", a < last_h_},
        {"sign", a > 0},
        {"rest", a == rest ? "eq" : a < rest ? "lt" : "gt"},
        {"hash", HashText<ODE>(state)},
        {"n", steps_},
        {"err", faults_.Since()}}));
    last_h_ = a;
    return ratio;
  }

  static std::string HText(Time const& h) {
    char buffer[40];
    std::snprintf(buffer, sizeof(buffer), "%a", h / Second);
    return buffer;
  }

  void Append(typename ODE::State const& state) {
    auto const& s = settings_[problem_];
    double const now = S(P::Value(state));
    double const goal = S(t_final_);
    double const dt = now - S(last_);
    double const distance = P::Distance(state);
    last_ = P::Value(state);
    ++steps_;
    double const scale = s.tolerance * (1 + std::abs(now)) * (steps_total_++ + 5);
    max_ = std::max(max_, distance / scale);
    tries_.push_back(
        J(Fields{{"kind", "P"},
                 {"cmp", now < goal   ? "lt"
                         : now > goal ? "gt"
                                      : "eq"},
                 {"mono", dt > 0},
                 {"tiny", last_h_ < 1e-12},
                 {"dt", std::abs(dt - last_h_) < 1e-12 * (1 + std::abs(now)) +
                                                      3e-13},
                 {"close", distance <= constant_ * scale + 1e-11},
                 {"hash", HashText<ODE>(state)},
                 {"n", steps_}}));
  }

  typename Integrator<ODE>::AppendState Appender() {
    return [this](typename ODE::State const& s) { Append(s); };
  }
  typename Integ::ToleranceToErrorRatio Tolerance() {
    return [this](Time const& h,
                  typename ODE::State const& state,
                  typename ODE::State::Error const& error) {
      return Ratio(h, state, error);
    };
  }

  void New(int const k) {
    is_[k] = I{};
    is_[k].problem = rng_(kProblems);
    auto const& s = settings_[is_[k].problem];
    Ev("new", {{"k", k + 1}, {"p", is_[k].problem + 1}});
    is_[k].instance =
        integrator_.NewInstance({P::Make(faults_), P::Initial()},
                                Appender(),
                                Tolerance(),
                                {s.first * Second,
                                 s.safety,
                                 s.max_steps,
                                 s.exact});
    Look(k);
  }

  void Solve(int const k) {
    auto& i = is_[k];
    auto const& s = settings_[i.problem];
    problem_ = i.problem;
    if (s.exact && i.used && rng_.Chance(95)) {
      return;
    }
    if (i.vanished) {
      // The step has been lost.
      return;
    }
    double const now = S(P::Value(i.instance->state()));
    // In hundredths of a second.
    int tf = std::ceil(now * 100);
    switch (rng_(12)) {
      case 0: tf += rng_(-50, 1); break;
      case 1:
      case 2: tf += rng_(1, 10); break;
      case 3: tf += rng_(100, 2000); break;
      default: tf += rng_(1, 300); break;
    }
    if (tf / 100.0 <= now && rng_.Chance(90)) {
      tf = std::ceil(now * 100) + 1;
    }
    t_final_ = t0 + s.direction * (tf / 100.0) * Second;
    faults_ = {};
    faults_.direction = s.direction;
    faults_.from = s.fault_from;
    faults_.to = s.fault_to;
    faults_.except = P::Value(i.instance->state());
    faults_.code = s.fault_code;
    tries_.clear();
    steps_ = 0;
    steps_total_ = 0;
    last_h_ = 0;
    last_ = P::Value(i.instance->state());
    Ev("solve",
       {{"k", k + 1},
        {"tf", tf},
        {"ahead", S(t_final_) > S(P::Value(i.instance->state()))}});
    auto const status = i.instance->Solve(t_final_);
    Hasher hasher;
    for (auto const& t : tries_) hasher(t.text);
    Ev("solved",
       {{"k", k + 1},
        {"code", Code(status)},
        {"ts", tries_},
        {"log", hasher.text()},
        {"hash", HashText<ODE>(i.instance->state())}});
    i.used = true;
    i.vanished = Code(status) == "vanishing";
    faults_ = {};
  }

  void Look(int const k) {
    Ev("look",
       {{"k", k + 1}, {"hash", HashText<ODE>(is_[k].instance->state())}});
  }

  void Clone(int const k, int const j) {
    Ev("clone", {{"k", k + 1}, {"j", j + 1}});
    auto clone = is_[k].instance->Clone();
    is_[j].problem = is_[k].problem;
    is_[j].used = is_[k].used;
    is_[j].vanished = is_[k].vanished;
    is_[j].instance = std::move(clone);
    Look(j);
  }

  void Serialize(int const k, int const j) {
    if constexpr (serializable_ode) {
      Ev("clone", {{"k", k + 1}, {"j", j + 1}});
      principia::serialization::IntegratorInstance message;
      is_[k].instance->WriteToMessage(&message);
      principia::serialization::IntegratorInstance copy;
      copy.ParseFromString(message.SerializeAsString());
      auto clone = Integ::Instance::ReadFromMessage(
          copy, P::Make(faults_), Appender(), Tolerance());
      is_[j].problem = is_[k].problem;
      is_[j].used = is_[k].used;
      is_[j].vanished = is_[k].vanished;
      is_[j].instance = std::move(clone);
      Look(j);
    }
  }

  void Order() {
    Cfg({{"kind", "order"}, {"method", name_}});
    std::vector<double> errors;
    std::vector<double> estimates;
    for (int n = 4; n <= 512; n *= 2) {
      double error = 0;
      double estimate = 0;
      double const h = 3.0 / n;
      auto const instance = integrator_.NewInstance(
          {P::Make(faults_), P::Initial()},
          [&](typename ODE::State const& s) {
            error = std::max(error, P::Distance(s));
          },
          [&](Time const&,
              typename ODE::State const&,
              typename ODE::State::Error const& e) {
            estimate = std::max(estimate, P::Norm(e));
            // The step changes very slowly.
            return std::pow(1 / 0.999, order_);
          },
          {h * Second, 0.999, 100000, /*last_step_is_exact=*/true});
      instance->Solve(t0 + 3 * Second).IgnoreError();
      errors.push_back(error);
      estimates.push_back(estimate);
    }
    Ev("order",
       {{"method", name_},
        {"claimed", order_},
        {"slope", Slope(errors)},
        {"estimate", Slope(estimates)},
        {"error", Scientific(errors[2])}});
  }

  void Run() {
    if (measure_order) {
      Order();
      return;
    }
    std::vector<J> ps;
    for (auto const& s : settings_) {
      ps.push_back(J(Fields{
          {"max", s.max_steps},
          {"exact", s.exact},
          {"fault",
           Code(absl::Status(s.fault_code, ""))}}));
    }
    Cfg({{"kind", "adaptive"}, {"ps", ps}, {"method", name_}});
    int const ops = rng_(4, 30);
    for (int o = 0; o < ops; ++o) {
      int const k = rng_(kInstances);
      if (is_[k].instance == nullptr || rng_.Chance(10)) {
        New(k);
      } else if (rng_.Chance(15)) {
        Clone(k, rng_(kInstances));
      } else if (serializable_ode && rng_.Chance(15)) {
        Serialize(k, rng_(kInstances));
      } else if (rng_.Chance(5)) {
        Look(k);
      } else {
        Solve(k);
      }
    }
    for (int k = 0; k < kInstances; ++k) {
      if (is_[k].instance != nullptr) Look(k);
    }
    if (getenv("VERIF_CALIBRATE")) {
      fprintf(stderr, "CAL %s %g\n", name_, max_);
    }
  }

 private:
  Rng& rng_;
  char const* const name_;
  Integ const& integrator_;
  double const constant_;
  int const order_;
  Settings settings_[kProblems];
  Faults faults_;
  int problem_ = 0;
  Instant t_final_;
  Instant last_;
  double last_h_ = 0;
  int steps_ = 0;
  int steps_total_ = 0;
  double max_ = 0;
  std::vector<J> tries_;
  I is_[kInstances];
};

#define FIXED(method, reuses_, constant_, order_, ODE, ...)                          \
  FixedDriver<ODE>(rng,                                                    \
                   {.name = #method,                                       \
                    .multi = false,                                        \
                    .points = 1,                                           \
                    .reuses = reuses_,                                     \
                    .constant = constant_,                                 \
                    .order = order_},                                      \
                   __VA_ARGS__)                                            \
      .Run()
#define MULTI(method, points_, constant_, order_, ODE, ...)                 \
  FixedDriver<ODE>(rng,                                                    \
                   {.name = #method,                                       \
                    .multi = true,                                         \
                    .points = points_,                                     \
                    .reuses = false,                                       \
                    .constant = constant_,                                 \
                    .order = order_},                                      \
                   __VA_ARGS__)                                            \
      .Run()
#define SRKN(method, constant, order) \
  FIXED(method, \
        (method::composition == \
         principia::serialization::FixedStepSizeIntegrator::BAB), \
        constant, \
        order, \
        Special, \
        SymplecticRungeKuttaNyströmIntegrator<method, Special>())
#define SPRK(method, composition, constant, order) \
  FIXED(method, \
        (principia::serialization::FixedStepSizeIntegrator::composition == \
         principia::serialization::FixedStepSizeIntegrator::BAB), \
        constant, \
        order, \
        Special, \
        SymplecticRungeKuttaNyströmIntegrator< \
            method, \
            principia::serialization::FixedStepSizeIntegrator::composition, \
            Special>())
#define SLM(method, order, constant) \
  MULTI(method, order, constant, order, Special, \
        SymmetricLinearMultistepIntegrator<method, Special>())
#define AB(order, constant) \
  MULTI(AdamsBashforthOrder##order, order, constant, order, First, \
        ExplicitLinearMultistepIntegrator<AdamsBashforthOrder##order, First>())

inline void RunFixed(std::int64_t const index, Rng& rng) {
  switch (index % 22) {
    case 0: SRKN(BlanesMoan2002SRKN6B, 9.3e-05, 4); break;
    case 1: SRKN(BlanesMoan2002SRKN11B, 4.1e-05, 6); break;
    case 2: SRKN(BlanesMoan2002SRKN14A, 2.8e-05, 6); break;
    case 3: SRKN(McLachlan1995SB3A4, 4.9e-03, 4); break;
    case 4: SRKN(McLachlan1995SB3A5, 1.2e-03, 4); break;
    case 5: SRKN(McLachlanAtela1992Order4Optimal, 9.1e-04, 4); break;
    case 6: SRKN(McLachlanAtela1992Order5Optimal, 6.1e-04, 5); break;
    case 7: SRKN(OkunborSkeel1994Order6Method13, 6.5e-05, 6); break;
    case 8: SPRK(吉田1990Order6A, ABA, 1.8e-02, 6); break;
    case 9: SPRK(吉田1990Order8A, BAB, 1.5e+01, 8); break;
    case 10: SPRK(NewtonDelambreStørmerVerletLeapfrog, ABA, 5.8e-01, 2); break;
    case 11: SPRK(NewtonDelambreStørmerVerletLeapfrog, BAB, 5.8e-01, 2); break;
    case 12: SPRK(BlanesMoan2002S6, ABA, 2.5e-04, 4); break;
    case 13: SLM(Quinlan1999Order8A, 8, 8.3e-02); break;
    case 14: SLM(Quinlan1999Order8B, 8, 2.4e-02); break;
    case 15: SLM(QuinlanTremaine1990Order8, 8, 7.3e-02); break;
    case 16: SLM(QuinlanTremaine1990Order10, 10, 3.0e-02); break;
    case 17: SLM(QuinlanTremaine1990Order12, 12, 1.0); break;
    case 18: SLM(QuinlanTremaine1990Order14, 14, 1.0e+05); break;
    case 19: AB(3, 1.5e+00); break;
    case 20: AB(6, 1.2e+00); break;
    case 21:
      FIXED(Kutta1901Vσ1, false, 7.4e-03, 4, First,
            ExplicitRungeKuttaIntegrator<Kutta1901Vσ1, First>());
      break;
  }
}

inline void RunAdaptive(std::int64_t const index,
                        double const weight,
                        Rng& rng) {
  velocity_weight = weight;
  switch (index % 4) {
    case 0:
      AdaptiveDriver<Special>(
          rng,
          "DormandElMikkawyPrince1986RKN434FM",
          EmbeddedExplicitRungeKuttaNyströmIntegrator<
              DormandالمكاوىPrince1986RKN434FM,
              Special>(),
          4.2e-02, 4).Run();
      break;
    case 1:
      AdaptiveDriver<General>(
          rng,
          velocity_weight == 0 ? "Fine1987RKNG34 (no velocity)"
                               : "Fine1987RKNG34",
          EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
              Fine1987RKNG34,
              General>(),
          velocity_weight == 0 ? 2.5e-02 : 6.3e+03, 4).Run();
      break;
    case 2:
      AdaptiveDriver<General>(
          rng,
          "Fine1987RKNG45",
          EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
              Fine1987RKNG45,
              General>(),
          1.1e-01, 5).Run();
      break;
    case 3:
      AdaptiveDriver<First>(
          rng,
          "DormandPrince1986RK547FC",
          EmbeddedExplicitRungeKuttaIntegrator<DormandPrince1986RK547FC,
                                               First>(),
          1.2e+00, 5).Run();
      break;
  }
}

}  // namespace verif

int main(int argc, char** argv) {
  return verif::SeqMain(argc,
                        argv,
                        [&](std::int64_t const index, verif::Rng& rng) {
                          verif::measure_order = index < 28;
                          if (index < 22) {
                            verif::RunFixed(index, rng);
                          } else if (index < 26) {
                            verif::RunAdaptive(index - 22, 0.25, rng);
                          } else if (index < 28) {
                            verif::RunAdaptive(index - 25, 0, rng);
                          } else if (index % 2 == 0) {
                            verif::RunFixed(index / 2, rng);
                          } else {
                            verif::RunAdaptive(
                                index / 2, rng.Chance(50) ? 0.25 : 0, rng);
                          }
                        });
}
