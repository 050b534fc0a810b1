// Sequences of edits of flight plans.  Times are in seconds since the initial
// time of the ephemeris.
#define VERIF_BARYCENTRIC
#include <map>
#include <thread>

#include "ksp_plugin/flight_plan.hpp"

#include "ephemeris_ops.hpp"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "ksp_plugin/integrators.hpp"
#include "physics/body_centred_non_rotating_reference_frame.hpp"
#include "seq_driver.hpp"

namespace verif {

using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_r3_element;
using namespace principia::integrators::
    _embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::
    _embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::ksp_plugin::_flight_plan;
using namespace principia::ksp_plugin::_manœuvre;
using namespace principia::physics::_reference_frame;
using namespace principia::ksp_plugin::_frames;
using namespace principia::ksp_plugin::_integrators;
using namespace principia::physics::_body_centred_non_rotating_reference_frame;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_rigid_reference_frame;

using Burn = NavigationManœuvre::Burn;
using Intensity = NavigationManœuvre::Intensity;

std::string CodeOf(absl::Status const& status) {
  switch (status.code()) {
    case absl::StatusCode::kOk: return "ok";
    case absl::StatusCode::kInvalidArgument: return "invalid";
    case absl::StatusCode::kOutOfRange: return "range";
    case absl::StatusCode::kDeadlineExceeded: return "deadline";
    case absl::StatusCode::kResourceExhausted: return "steps";
    default: return "other";
  }
}

std::string Exact(double const d) {
  char buffer[40];
  std::snprintf(buffer, sizeof(buffer), "%.17g", d);
  return buffer;
}

bool Near(double const x, double const y) {
  return std::abs(x - y) <= 1e-9 * (std::abs(x) + std::abs(y)) + 1e-9;
}

class Scenario {
 public:
  explicit Scenario(Rng& rng) : rng_(rng), factory_(MakeOptions(rng)) {
    ephemeris_ = factory_.Make();
    // Everything starts after t₀, so that the times are positive.
    start_ = rng_(100, 3000) + (rng_.Chance(50) ? 0.25 : 0);
    prolonged_ = rng_.Chance(50);
    ephemeris_->Prolong(T(prolonged_ ? 45000 : start_ + rng_(2000)))
        .IgnoreError();
    max_steps_ = std::vector<int>{3, 20, 1000, 3000, 3000, 3000, 3000}[rng_(7)];
    tolerance_ = std::vector<double>{1e-2, 1, 100}[rng_(3)];
  }

  void Run() {
    Cfg({{"slots", 3}});
    int const n = rng_(4, 24);
    for (int i = 0; i < n; ++i) {
      Step();
    }
    for (auto& [k, plan] : plans_) {
      plan.reset();
    }
  }

 private:
  static EphemerisOptions MakeOptions(Rng& rng) {
    EphemerisOptions options;
    options.step_seconds = 10;
    options.period = 4000;
    options.radius = 1000;
    options.all_rotating = true;
    options.integrator = rng.Chance(70) ? 0 : 3;
    return options;
  }

  Instant T(double const s) const { return factory_.At(0) + s * Second; }
  double S(Instant const& t) const { return (t - factory_.At(0)) / Second; }
  double TMax() const { return S(ephemeris_->t_max()); }

  Eph::AdaptiveStepParameters Adaptive() const {
    return Eph::AdaptiveStepParameters(
        EmbeddedExplicitRungeKuttaNyströmIntegrator<
            DormandالمكاوىPrince1986RKN434FM,
            Eph::NewtonianMotionEquation>(),
        max_steps_,
        tolerance_ * Metre,
        tolerance_ * Metre / Second);
  }
  Eph::GeneralizedAdaptiveStepParameters Generalized() const {
    return Eph::GeneralizedAdaptiveStepParameters(
        EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
            Fine1987RKNG34,
            Eph::GeneralizedNewtonianMotionEquation>(),
        max_steps_,
        tolerance_ * Metre,
        tolerance_ * Metre / Second);
  }

  DegreesOfFreedom<Barycentric> VesselMotion() const {
    auto const centre =
        ephemeris_->trajectory(ephemeris_->bodies()[0])
            ->EvaluateDegreesOfFreedom(T(start_));
    double const r = 0.25 * EphemerisFactory::kDistance;
    double const v = std::sqrt((factory_.Mu(0) /
                                (Metre * Metre * Metre / (Second * Second))) /
                               r);
    return {centre.position() + Displacement<Barycentric>(
                                    {r * Metre, 0 * Metre, 0 * Metre}),
            centre.velocity() +
                Velocity<Barycentric>({0 * Metre / Second,
                                       v * 0.9 * Metre / Second,
                                       v * 0.1 * Metre / Second})};
  }

  // The identity of a burn, independently of the mass.
  std::string BurnText(Burn const& burn) const {
    std::string s;
    if (burn.intensity.has_spherical_coordinates()) {
      auto const c = burn.intensity.Δv_spherical_coordinates();
      s = "s" + Exact(c.radius / (Metre / Second)) + "/" +
          Exact(c.latitude / Radian) + "/" + Exact(c.longitude / Radian);
    } else {
      auto const c = burn.intensity.Δv_cartesian_coordinates();
      s = "c" + Exact(c.x / (Metre / Second)) + "/" +
          Exact(c.y / (Metre / Second)) + "/" + Exact(c.z / (Metre / Second));
    }
    auto const v = burn.intensity.Δv().coordinates();
    s += "=" + Exact(v.x / (Metre / Second)) + "/" +
         Exact(v.y / (Metre / Second)) + "/" + Exact(v.z / (Metre / Second));
    s += burn.timing.initial_time.has_value()
             ? "i" + Exact(S(*burn.timing.initial_time)) : "-";
    s += burn.timing.time_of_half_Δv.has_value()
             ? "h" + Exact(S(*burn.timing.time_of_half_Δv)) : "-";
    s += "t" + Exact(burn.thrust / Newton);
    s += "p" + Exact(burn.specific_impulse / (Newton * Second / Kilogram));
    s += burn.is_inertially_fixed ? "F" : "V";
    auto const* frame = dynamic_cast<
        BodyCentredNonRotatingReferenceFrame<Barycentric, Navigation> const*>(
        &*burn.frame);
    s += frame == nullptr ? "?" : frame->centre()->name();
    return s;
  }

  static std::string Hash(std::string const& s) {
    Hasher hash;
    hash(s);
    return hash.text();
  }

  static std::string DofText(Instant const& t0,
                             Instant const& t,
                             DegreesOfFreedom<Barycentric> const& d) {
    Hasher hash;
    hash((t - t0) / Second);
    auto const q = (d.position() - Barycentric::origin).coordinates();
    auto const v = d.velocity().coordinates();
    for (auto const& c : {q.x, q.y, q.z}) hash(c / Metre);
    for (auto const& c : {v.x, v.y, v.z}) hash(c / (Metre / Second));
    return hash.text();
  }

  template<typename Segment>
  std::string SegmentText(Segment const& segment) const {
    std::string s;
    for (auto const& [t, d] : segment) {
      s += DofText(factory_.At(0), t, d);
    }
    return Hash(s);
  }

  // Whether the quantities derived from a burn are right.
  bool RocketOk(NavigationManœuvre const& m) const {
    double const m0 = m.initial_mass() / Kilogram;
    double const v = m.Δv().Norm() / (Metre / Second);
    double const isp = m.specific_impulse() / (Newton * Second / Kilogram);
    double const f = m.thrust() / Newton;
    double const m1 = m0 * std::exp(-v / isp);
    double const duration = v == 0 ? 0 : (m0 - m1) * isp / f;
    double const half =
        v == 0 ? 0 : (m0 - m0 * std::exp(-v / 2 / isp)) * isp / f;
    double const t0 = S(m.initial_time());
    bool ok = Near(m.final_mass() / Kilogram, m1) &&
              Near(m.duration() / Second, duration) &&
              Near(S(m.final_time()), t0 + duration) &&
              Near(S(m.time_of_half_Δv()), t0 + half);
    if (m.timing().initial_time.has_value()) {
      ok &= m.initial_time() == *m.timing().initial_time;
    } else {
      ok &= m.time_of_half_Δv() == *m.timing().time_of_half_Δv;
    }
    return ok;
  }

  // Whether the acceleration of a burn is right at its beginning, in its
  // middle, and outside of it.  It must have a coasting trajectory, that ends
  // with the given point.
  bool ThrustOk(NavigationManœuvre const& m,
                DegreesOfFreedom<Barycentric> const& d) const {
    int const centre = m.frame()->t_min() == m.frame()->t_min() &&
                               dynamic_cast<BodyCentredNonRotatingReferenceFrame<
                                   Barycentric, Navigation> const*>(
                                   &*m.frame())
                                       ->centre()
                                       ->name() == "body1"
                           ? 1
                           : 0;
    Instant const t0 = m.initial_time();
    auto const c = ephemeris_->trajectory(ephemeris_->bodies()[centre])
                       ->EvaluateDegreesOfFreedom(t0);
    auto const frenet = m.FrenetFrame();
    auto const v = (d.velocity() - c.velocity()).coordinates();
    auto const r = (c.position() - d.position()).coordinates();
    R3Element<double> const tangent = v / v.Norm();
    auto const ftangent = frenet(Vector<double, Frenet<Navigation>>(
        {1, 0, 0})).coordinates();
    auto const fnormal = frenet(Vector<double, Frenet<Navigation>>(
        {0, 1, 0})).coordinates();
    auto const fbinormal = frenet(Vector<double, Frenet<Navigation>>(
        {0, 0, 1})).coordinates();
    bool ok = (ftangent - tangent).Norm() < 1e-9 &&
              std::abs(Dot(fnormal, tangent)) < 1e-9 &&
              (Cross(ftangent, fnormal) - fbinormal).Norm() < 1e-9;
    if (centre == 0) {
      auto const rn = r / r.Norm();
      auto const side = rn - tangent * Dot(rn, tangent);
      ok &= side.Norm() < 0.2 || Dot(fnormal, rn) > 0;
    }
    double const v0 = m.Δv().Norm() / (Metre / Second);
    R3Element<double> u{0, 0, 0};
    if (v0 > 0) {
      auto const x = m.Δv().coordinates() / (Metre / Second);
      u = (ftangent * x.x + fnormal * x.y + fbinormal * x.z) / v0;
    }
    double const flow = m.thrust() / Newton /
                        (m.specific_impulse() / (Newton * Second / Kilogram));
    for (double const fraction : {-0.01, 0.001, 0.5, 0.999, 1.01}) {
      Instant const t = t0 + fraction * (m.duration() + 1e-3 * Second);
      if (t > ephemeris_->t_max()) continue;
      bool const on = t >= t0 && t <= m.final_time();
      double const mass =
          m.initial_mass() / Kilogram - flow * ((t - t0) / Second);
      R3Element<double> const expected =
          on ? u * (m.thrust() / Newton / mass) : u * 0;
      auto const actual =
          (m.is_inertially_fixed()
               ? m.InertialIntrinsicAcceleration()(t)
               : m.FrenetIntrinsicAcceleration()(t, d)).coordinates() /
          (Metre / (Second * Second));
      double const scale = m.thrust() / Newton / mass;
      // If the burn is not inertially fixed, the frame moves; just evaluate at
      // `t0` and otherwise check the norm.
      if (m.is_inertially_fixed()) {
        ok &= (actual - expected).Norm() <= 1e-6 * scale;
      } else {
        ok &= std::abs(actual.Norm() - expected.Norm()) <= 1e-6 * scale;
      }
    }
    if (!m.is_inertially_fixed()) {
      auto const actual =
          m.FrenetIntrinsicAcceleration()(t0, d).coordinates() /
          (Metre / (Second * Second));
      double const scale = m.thrust() / m.initial_mass() /
                           (Metre / (Second * Second));
      ok &= (actual - u * scale).Norm() <= 1e-6 * scale;
    }
    return ok;
  }

  // Observes the plan.  `deep` compares its segments with independent
  // integrations.
  J Observe(FlightPlan& plan, bool const deep) {
    int const n = plan.number_of_manœuvres();
    int const segments = plan.number_of_segments();
    int const anomalous = plan.number_of_anomalous_manœuvres();
    std::vector<J> burns;
    for (int i = 0; i < n; ++i) {
      auto const& m = plan.GetManœuvre(i);
      bool thrust = true;
      std::string frenet = "";
      if (deep && i < n - anomalous && segments == 2 * n + 1) {
        thrust = ThrustOk(m, plan.GetSegment(2 * i)->back().degrees_of_freedom);
      }
      burns.push_back(Fields{{"burn", Hash(BurnText(m.burn()))},
                             {"m0", Exact(m.initial_mass() / Kilogram)},
                             {"m1", Exact(m.final_mass() / Kilogram)},
                             {"rocket", RocketOk(m)},
                             {"thrust", thrust}});
    }
    std::vector<J> list;
    bool joined = segments == 2 * n + 1;
    std::string previous;
    for (int i = 0; i < segments && joined; ++i) {
      auto const& segment = *plan.GetSegment(i);
      bool const coast = i % 2 == 0;
      Instant const target =
          coast ? (i / 2 < n ? plan.GetManœuvre(i / 2).initial_time()
                             : plan.desired_final_time())
                : plan.GetManœuvre(i / 2).final_time();
      std::string const front =
          DofText(factory_.At(0), segment.front().time,
                  segment.front().degrees_of_freedom);
      std::string const back =
          DofText(factory_.At(0), segment.back().time,
                  segment.back().degrees_of_freedom);
      if (i > 0) {
        joined &= front == previous;
      }
      previous = back;
      bool const ends = segment.back().time == target;
      std::string ref = "none";
      if (deep && segment.size() > 1 && ephemeris_->t_max() >= target &&
          (ends || (prolonged_ && segment.size() > max_steps_))) {
        ref = Reference(plan, i, front, target) == SegmentText(segment)
                  ? "same"
                  : "different";
      }
      list.push_back(Fields{{"hash", SegmentText(segment)},
                            {"size", static_cast<int>(segment.size())},
                            {"ends", ends},
                            {"past", segment.back().time > target},
                            {"target", static_cast<int>(S(target))},
                            {"ref", ref}});
    }
    auto const& trajectory = plan.GetAllSegments();
    joined &= trajectory.segments().size() == segments &&
              plan.actual_final_time() == trajectory.back().time &&
              trajectory.front().time == plan.initial_time();
    auto const& adaptive = plan.adaptive_step_parameters();
    auto const& generalized = plan.generalized_adaptive_step_parameters();
    return Fields{
        {"burns", burns},
        {"segments", list},
        {"joined", joined},
        {"first", DofText(factory_.At(0), trajectory.front().time,
                          trajectory.front().degrees_of_freedom)},
        {"desired", Exact(S(plan.desired_final_time()))},
        {"anomalous", anomalous},
        {"status", CodeOf(plan.anomalous_status())},
        {"params", std::to_string(adaptive.max_steps()) + "/" +
             Exact(adaptive.length_integration_tolerance() / Metre) + "/" +
             Exact(adaptive.speed_integration_tolerance() /
                   (Metre / Second)) + "/" +
             std::to_string(generalized.max_steps()) + "/" +
             Exact(generalized.length_integration_tolerance() / Metre)}};
  }

  // The text of the segment obtained by integrating independently.
  std::string Reference(FlightPlan& plan,
                        int const i,
                        std::string const& front,
                        Instant const& target) {
    auto const& segment = *plan.GetSegment(i);
    std::string key = front + "|" + Exact(S(target)) + "|" +
                      std::to_string(max_steps_) + "|" + Exact(tolerance_);
    if (i % 2 == 1) {
      auto const& m = plan.GetManœuvre(i / 2);
      key += "|" + BurnText(m.burn()) + "|" +
             Exact(m.initial_mass() / Kilogram);
    }
    auto const it = references_.find(key);
    if (it != references_.end()) {
      return it->second;
    }
    DiscreteTrajectory<Barycentric> trajectory;
    trajectory.Append(segment.front().time, segment.front().degrees_of_freedom)
        .IgnoreError();
    if (i % 2 == 0) {
      ephemeris_->FlowWithAdaptiveStep(&trajectory,
                                       Eph::NoIntrinsicAcceleration,
                                       target,
                                       Adaptive(),
                                       0).IgnoreError();
    } else {
      auto const& m = plan.GetManœuvre(i / 2);
      NavigationManœuvre mine(m.initial_mass(), m.burn());
      mine.set_coasting_trajectory(plan.GetSegment(i - 1));
      if (m.is_inertially_fixed()) {
        ephemeris_->FlowWithAdaptiveStep(&trajectory,
                                         mine.InertialIntrinsicAcceleration(),
                                         target,
                                         Adaptive(),
                                         0).IgnoreError();
      } else {
        ephemeris_->FlowWithAdaptiveStep(&trajectory,
                                         mine.FrenetIntrinsicAcceleration(),
                                         target,
                                         Generalized(),
                                         0).IgnoreError();
      }
    }
    return references_[key] = SegmentText(*trajectory.segments().begin());
  }

  // The chain of manœuvres that a plan must have.
  std::vector<NavigationManœuvre> Chain(std::vector<Burn> const& burns) const {
    std::vector<NavigationManœuvre> result;
    Mass mass = mass_;
    for (auto const& burn : burns) {
      result.emplace_back(mass, burn);
      mass = result.back().final_mass();
    }
    return result;
  }

  // A burn that starts or has its middle at around `t`.
  Burn MakeBurn(double const t, bool const exactly) {
    double const Δv = std::vector<double>{0, 1000, 3000, 10000, 10000,
                                          20000}[rng_(6)];
    double x = rng_(-10, 10), y = rng_(-10, 10), z = rng_(-3, 3);
    if (x == 0 && y == 0 && z == 0) x = 1;
    double const norm = std::sqrt(x * x + y * y + z * z);
    Speed const unit = Δv / norm * Metre / Second;
    R3Element<Speed> cartesian{x * unit, y * unit, z * unit};
    int const k = rng_(30);
    if (k == 0) {
      cartesian.y = std::numeric_limits<double>::infinity() * Metre / Second;
    } else if (k == 1) {
      cartesian.x = std::numeric_limits<double>::quiet_NaN() * Metre / Second;
    }
    Intensity const intensity =
        k > 1 && rng_.Chance(25)
            ? Intensity(Permutation<PermutedFrenet<Navigation>,
                                    Frenet<Navigation>>(
                            std::vector<EvenPermutation>{
                                EvenPermutation::XYZ,
                                EvenPermutation::YZX,
                                EvenPermutation::ZXY}[rng_(3)]),
                        cartesian.ToSpherical())
            : Intensity(cartesian);
    NavigationManœuvre::Timing timing;
    double const jitter = exactly ? 0 : rng_(1000) / 64.0;
    if (exactly || rng_.Chance(50)) {
      timing.initial_time = T(t + jitter);
    } else {
      timing.time_of_half_Δv = T(t + jitter);
    }
    return Burn{
        intensity,
        timing,
        std::vector<double>{2e4, 1e5, 4e5}[rng_(3)] * Newton,
        std::vector<double>{3e4, 1e5}[rng_(2)] * (Newton * Second / Kilogram),
        make_not_null_shared<
            BodyCentredNonRotatingReferenceFrame<Barycentric, Navigation>>(
            ephemeris_.get(),
            ephemeris_->bodies()[rng_.Chance(80) ? 0 : 1]),
        rng_.Chance(50)};
  }

  template<typename T>
  static not_null<std::shared_ptr<NavigationFrame const>> make_not_null_shared(
      not_null<Eph const*> const ephemeris,
      not_null<MassiveBody const*> const body) {
    std::shared_ptr<NavigationFrame const> const p =
        std::make_shared<T>(ephemeris, body);
    return check_not_null(p);
  }

  bool Longer(std::vector<NavigationManœuvre> const& chain,
              Instant const& desired) const {
    return !chain.empty() && chain.back().final_time() > desired;
  }
  std::string Last(std::vector<NavigationManœuvre> const& chain) const {
    return chain.empty() ? "none" : Exact(S(chain.back().final_time()));
  }
  std::string Params() const {
    return std::to_string(max_steps_) + "/" + Exact(tolerance_) + "/" +
           Exact(tolerance_) + "/" + std::to_string(max_steps_) + "/" +
           Exact(tolerance_);
  }

  bool ChainOk(std::vector<NavigationManœuvre> const& chain, int const from) {
    for (int i = std::max(from, 1); i < chain.size(); ++i) {
      if (!(chain[i - 1].final_time() < chain[i].initial_time())) return false;
    }
    return from > 0 || chain.empty() || T(start_) < chain[0].initial_time();
  }

  int AnySlot() {
    std::vector<int> slots;
    for (auto const& [k, plan] : plans_) {
      if (plan != nullptr) slots.push_back(k);
    }
    return slots.empty() ? -1 : slots[rng_(slots.size())];
  }

  // A time for a burn at the given index of a plan, with a bias to the limits.
  std::pair<double, bool> BurnTime(FlightPlan& plan, int const i, bool replace) {
    int const n = plan.number_of_manœuvres();
    double const lo =
        i == 0 ? start_ : S(plan.GetManœuvre(i - 1).final_time());
    int const j = replace ? i + 1 : i;
    double const hi = j >= n ? S(plan.desired_final_time())
                             : S(plan.GetManœuvre(j).initial_time());
    int const k = rng_(20);
    if (k == 0) return {lo, true};
    if (k == 1) return {hi, true};
    if (k == 2) return {lo - 10, false};
    if (k == 3) return {hi + 10, false};
    if (k == 4 && !prolonged_) return {TMax() + 10000 * rng_(3), true};
    if (k >= 5 && k <= 8) return {lo + 1.0 / 1024, true};
    // Straddling the time that can be reached.
    if (k >= 9 && k <= 14 && !prolonged_ && lo < TMax() + 9800) {
      return {std::max(lo, TMax() + 9990 + rng_(-600, 2000)) + 1.0 / 1024,
              true};
    }
    return {lo + (hi - lo) * rng_(1, 99) / 100.0, false};
  }

  void Done(int const k, std::string const& code, Fields const& extra = {}) {
    std::vector<J> obs;
    for (int i = 1; i <= 3; ++i) {
      obs.push_back(plans_[i] == nullptr ? J("none")
                                         : Observe(*plans_[i], i == k));
    }
    double const t_max = TMax();
    Ev("done", {{"k", k},
                {"code", code},
                {"tmax", static_cast<int>(t_max)},
                {"obs", obs[k - 1]},
                {"others", Others(k)}});
  }

  // The other plans don't change.
  bool Others(int const k) {
    bool same = true;
    for (int i = 1; i <= 3; ++i) {
      std::string const now =
          plans_[i] == nullptr ? "none" : Observe(*plans_[i], false).text;
      same &= i == k || now == last_[i];
      last_[i] = now;
    }
    return same;
  }

  void Install(int const k, std::unique_ptr<FlightPlan> plan) {
    plans_[k] = std::move(plan);
    if (!rng_.Chance(8)) {
      plans_[k]->EnableAnalysis(false);
    }
  }

  void Step() {
    int k = AnySlot();
    int op = rng_(100);
    if (k != -1 && last_[k].find("\"deadline\"") != std::string::npos &&
        rng_.Chance(65)) {
      op = 80;
    }
    if (k == -1 || op < 4) {
      k = rng_(1, 3);
      double const length = rng_.Chance(10) ? 0
                            : prolonged_    ? rng_(3000, 20000)
                                            : rng_(2000, 33000);
      Ev("new", {{"k", k},
                 {"tmax", static_cast<int>(TMax())},
                 {"desired", Exact(start_ + length)},
                 {"m0", Exact(mass_ / Kilogram)},
                 {"params", Params()},
                 {"max_steps", max_steps_}});
      burns_[k].clear();
      plans_[k].reset();
      Install(k, std::make_unique<FlightPlan>(mass_,
                                              T(start_),
                                              VesselMotion(),
                                              T(start_ + length),
                                              ephemeris_.get(),
                                              Adaptive(),
                                              Generalized()));
      Done(k, "ok");
      return;
    }
    FlightPlan& plan = *plans_[k];
    auto& burns = burns_[k];
    int const n = plan.number_of_manœuvres();
    if (op < 58 && n < 6) {
      bool const replace = n > 0 && rng_.Chance(35);
      int const i = replace ? (rng_.Chance(50) ? n - 1 : rng_(n))
                            : (rng_.Chance(50) ? n : rng_(n + 1));
      auto const [t, exactly] = BurnTime(plan, i, replace);
      Burn const burn = MakeBurn(t, exactly);
      auto candidate_burns = burns;
      if (replace) {
        candidate_burns[i] = burn;
      } else {
        candidate_burns.insert(candidate_burns.begin() + i, burn);
      }
      auto const chain = Chain(candidate_burns);
      auto const old_chain = Chain(burns);
      auto const& m = chain[i];
      bool const sing = !std::isfinite(m.Δv().Norm²() /
                                       (Metre / Second) / (Metre / Second));
      Instant const begin = i == 0 ? T(start_) : chain[i - 1].final_time();
      int const next = replace ? i + 1 : i;
      Instant const end = next >= n ? plan.desired_final_time()
                                    : old_chain[next].initial_time();
      bool const after = begin < m.initial_time();
      bool const before = m.final_time() < end;
      Ev(replace ? "replace" : "insert",
         {{"k", k},
          {"tmax", static_cast<int>(TMax())},
          {"i", i + 1},
          {"burn", Hash(BurnText(burn))},
          {"sing", sing},
          {"after", after},
          {"before", before},
          {"chain", sing || !after || ChainOk(chain, i + 1)},
          {"longer", Longer(chain, plan.desired_final_time())},
          {"last", Last(chain)}});
      absl::Status const status =
          replace ? plan.Replace(burn, i) : plan.Insert(burn, i);
      if (plan.number_of_manœuvres() == candidate_burns.size() &&
          Hash(BurnText(plan.GetManœuvre(i).burn())) == Hash(BurnText(burn))) {
        burns = candidate_burns;
      }
      Done(k, CodeOf(status));
    } else if (op < 65 && n > 0) {
      int const i = rng_(n);
      auto candidate_burns = burns;
      candidate_burns.erase(candidate_burns.begin() + i);
      auto const chain = Chain(candidate_burns);
      Ev("remove",
         {{"k", k},
          {"tmax", static_cast<int>(TMax())},
          {"i", i + 1},
          {"chain", ChainOk(chain, i)},
          {"longer", Longer(chain, plan.desired_final_time())},
          {"last", Last(chain)}});
      absl::Status const status = plan.Remove(i);
      if (plan.number_of_manœuvres() == candidate_burns.size()) {
        burns = candidate_burns;
      }
      Done(k, CodeOf(status));
    } else if (op < 73) {
      double const last =
          n == 0 ? start_ : S(plan.GetManœuvre(n - 1).final_time());
      int const c = rng_(6);
      double const t = c == 0   ? last
                       : c == 1 ? last - 1e-3
                       : c == 2 ? rng_(0, 3000)
                                : last + rng_(1, prolonged_ ? 15000 : 30000);
      double const bounded = std::min(t, 40000.0);
      Ev("final", {{"k", k},
                   {"tmax", static_cast<int>(TMax())},
                   {"desired", Exact(S(T(bounded)))},
                   {"bad", T(bounded) < (n == 0 ? T(start_)
                                                : Chain(burns).back()
                                                      .final_time())}});
      absl::Status const status = plan.SetDesiredFinalTime(T(bounded));
      Done(k, CodeOf(status));
    } else if (op < 77) {
      max_steps_ = std::vector<int>{3, 20, 1000, 3000, 3000, 3000, 3000}[rng_(7)];
      tolerance_ = std::vector<double>{1e-2, 1, 100}[rng_(3)];
      // Keep it simple: all the plans have the same parameters.
      for (int j = 1; j <= 3; ++j) {
        if (plans_[j] == nullptr) continue;
        Ev("params", {{"k", j}, {"tmax", static_cast<int>(TMax())},
                      {"max_steps", max_steps_},
                      {"longer", Longer(Chain(burns_[j]),
                                        plans_[j]->desired_final_time())},
                      {"last", Last(Chain(burns_[j]))},
                      {"params", Params()}});
        absl::Status const status =
            plans_[j]->SetAdaptiveStepParameters(Adaptive(), Generalized());
        Done(j, CodeOf(status));
      }
    } else if (op < 86) {
      if (!prolonged_ && rng_.Chance(80)) {
        // Something else prolongs the ephemeris, possibly up to the middle of a
        // burn.
        double t = TMax() + rng_(1000, 20000);
        int i = 0;
        while (i < n && S(plan.GetManœuvre(i).final_time()) <= TMax()) ++i;
        if (i < n && rng_.Chance(70)) {
          auto const& m = plan.GetManœuvre(i);
          t = S(m.initial_time()) +
              m.duration() / Second * rng_(1, 99) / 100.0;
        }
        if (t > TMax()) {
          ephemeris_->Prolong(T(std::min(t, 45000.0))).IgnoreError();
        }
      }
      Ev("avoid", {{"k", k},
                   {"tmax", static_cast<int>(TMax())},
                   {"longer", Longer(Chain(burns), plan.desired_final_time())},
                   {"last", Last(Chain(burns))}});
      if (rng_.Chance(50)) {
        plan.GetAllSegmentsAvoidingDeadlines();
      } else {
        plan.GetSegmentAvoidingDeadlines(rng_(2 * n + 1));
      }
      Done(k, "ok");
    } else if (op < 91) {
      int const to = rng_(1, 3);
      if (to == k) return;
      Ev("copy", {{"k", to}, {"from", k}, {"tmax", static_cast<int>(TMax())}});
      plans_[to].reset();
      Install(to, std::make_unique<FlightPlan>(plan));
      burns_[to] = burns;
      Done(to, "ok");
    } else if (op < 95) {
      int const to = rng_(1, 3);
      // The serialized form retains the initial times.
      auto const chain = Chain(burns);
      auto converted = burns;
      std::vector<std::string> texts;
      for (int i = 0; i < n; ++i) {
        converted[i].timing = {.initial_time = chain[i].initial_time()};
        texts.push_back(Hash(BurnText(converted[i])));
      }
      Ev("read", {{"k", to},
                  {"burns", texts},
                  {"from", k},
                  {"tmax", static_cast<int>(TMax())},
                  {"longer", Longer(Chain(burns), plan.desired_final_time())},
                  {"last", Last(Chain(burns))}});
      principia::serialization::FlightPlan message;
      plan.WriteToMessage(&message);
      auto read = FlightPlan::ReadFromMessage(message, ephemeris_.get());
      burns_[to] = converted;
      plans_[to].reset();
      Install(to, std::move(read));
      Done(to, "ok");
    } else if (op < 97) {
      Ev("destroy", {{"k", k}, {"tmax", static_cast<int>(TMax())}});
      plans_[k].reset();
      burns_[k].clear();
      Done(k, "ok");
    } else if (!prolonged_) {
      std::this_thread::sleep_for(std::chrono::milliseconds(rng_(60)));
    }
  }

  Rng& rng_;
  EphemerisFactory const factory_;
  std::unique_ptr<Eph> ephemeris_;
  double start_;
  bool prolonged_;
  int max_steps_;
  double tolerance_;
  Mass const mass_ = 1000 * Kilogram;
  std::map<int, std::unique_ptr<FlightPlan>> plans_;
  std::map<int, std::vector<Burn>> burns_;
  std::map<int, std::string> last_{{1, "none"}, {2, "none"}, {3, "none"}};
  std::map<std::string, std::string> references_;
};

}  // namespace verif

int main(int argc, char** argv) {
  return verif::SeqMain(
      argc, argv, [](std::int64_t const index, verif::Rng& rng) {
        verif::Scenario scenario(rng);
        scenario.Run();
      });
}
