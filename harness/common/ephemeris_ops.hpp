// Construction and observation of ephemerides.  Times are in steps of the
// ephemeris since its initial time.
#pragma once

#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "astronomy/epoch.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "integrators/integrators.hpp"
#if defined(VERIF_BARYCENTRIC)
#include "ksp_plugin/frames.hpp"
#endif
#include "integrators/methods.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/ephemeris.hpp"
#include "physics/massive_body.hpp"
#include "physics/oblate_body.hpp"
#include "physics/rotating_body.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "serialization/physics.pb.h"

namespace verif {

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::integrators::_integrators;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_symmetric_linear_multistep_integrator;
using namespace principia::integrators::
    _symplectic_runge_kutta_nyström_integrator;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_oblate_body;
using namespace principia::physics::_rotating_body;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;

#if defined(VERIF_BARYCENTRIC)
using World = principia::ksp_plugin::_frames::Barycentric;
#else
using World = Frame<principia::serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    principia::serialization::Frame::TEST1>;
#endif
using Eph = Ephemeris<World>;

struct Hasher {
  std::uint64_t h = 1469598103934665603ULL;
  void operator()(double const d) {
    std::uint64_t u;
    std::memcpy(&u, &d, sizeof(u));
    for (int i = 0; i < 8; ++i) {
      h = (h ^ ((u >> (8 * i)) & 255)) * 1099511628211ULL;
    }
  }
  void operator()(std::string const& s) {
    for (char const c : s) {
      h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
    }
  }
  std::string text() const {
    char buffer[20];
    std::snprintf(buffer, sizeof(buffer), "%016llx", (unsigned long long)h);
    return buffer;
  }
};

struct EphemerisOptions {
  int step_days = 30;
  double step_seconds = 0;  // If not zero, instead of `step_days`.
  int bodies = 2;
  int oblate = -1;  // The index of the oblate body, or -1.
  int integrator = 0;
  double period = 40;  // In steps.
  double radius = 1000;  // Of body 1, in metres.
  bool all_rotating = false;
};

class EphemerisFactory {
 public:
  static constexpr double kDistance = 1e9;  // In metres.
  static constexpr double kRatio = 0.2;     // Of the mass of body 1.

  explicit EphemerisFactory(EphemerisOptions const& options)
      : options_(options), step_(options.step_seconds > 0 ? options.step_seconds * Second
                                       : options.step_days * Day), t0_(Instant()) {
    double const period = options_.period * (step_ / Second);
    mu_ = 4 * M_PI * M_PI * kDistance * kDistance * kDistance /
          (period * period);
  }

  Time const& step() const { return step_; }
  Instant At(double const t) const { return t0_ + t * step_; }
  double mu() const { return mu_; }

  // The exact motion if there are two spherical bodies.
  DegreesOfFreedom<World> Motion(int const i, double const t) const {
    double const w = 2 * M_PI / (options_.period * (step_ / Second));
    double const a = w * t * (step_ / Second);
    if (i < 2) {
      double const r = i == 0 ? -kRatio * kDistance : (1 - kRatio) * kDistance;
      return {World::origin + Displacement<World>({r * std::cos(a) * Metre,
                                                   r * std::sin(a) * Metre,
                                                   0 * Metre}),
              Velocity<World>({-r * w * std::sin(a) * Metre / Second,
                               r * w * std::cos(a) * Metre / Second,
                               0 * Metre / Second})};
    } else {
      // Far away, at rest.
      return {World::origin +
                  Displacement<World>({0 * Metre,
                                       3 * kDistance * Metre,
                                       5 * i * kDistance * Metre}),
              Velocity<World>()};
    }
  }

  GravitationalParameter Mu(int const i) const {
    return (i == 0   ? (1 - kRatio) * mu_
            : i == 1 ? kRatio * mu_
                     : 1e-4 * mu_) *
           (Metre * Metre * Metre / (Second * Second));
  }

  FixedStepSizeIntegrator<Eph::NewtonianMotionEquation> const& integrator()
      const {
    switch (options_.integrator) {
      case 0:
        return SymplecticRungeKuttaNyströmIntegrator<
            McLachlanAtela1992Order5Optimal,
            Eph::NewtonianMotionEquation>();
      case 1:
        return SymmetricLinearMultistepIntegrator<
            QuinlanTremaine1990Order12,
            Eph::NewtonianMotionEquation>();
      case 2:
        return SymplecticRungeKuttaNyströmIntegrator<
            BlanesMoan2002SRKN14A,
            Eph::NewtonianMotionEquation>();
      default:
        return SymmetricLinearMultistepIntegrator<
            Quinlan1999Order8A,
            Eph::NewtonianMotionEquation>();
    }
  }

  std::unique_ptr<Eph> Make() const {
    std::vector<not_null<std::unique_ptr<MassiveBody const>>> bodies;
    std::vector<DegreesOfFreedom<World>> state;
    for (int i = 0; i < options_.bodies; ++i) {
      MassiveBody::Parameters const massive("body" + std::to_string(i), Mu(i));
      RotatingBody<World>::Parameters const rotating(
          options_.radius * Metre,
          1 * Radian,
          t0_,
          1e-6 * Radian / Second,
          0.1 * Radian,
          1.2 * Radian);
      if (i == options_.oblate) {
        bodies.emplace_back(std::make_unique<OblateBody<World>>(
            massive,
            rotating,
            OblateBody<World>::Parameters(0.01, 0.1 * kDistance * Metre)));
      } else if (i == 1 || options_.all_rotating) {
        bodies.emplace_back(
            std::make_unique<RotatingBody<World>>(massive, rotating));
      } else {
        bodies.emplace_back(std::make_unique<MassiveBody>(massive));
      }
      state.push_back(Motion(i, 0));
    }
    return std::make_unique<Eph>(
        std::move(bodies),
        state,
        t0_,
        Eph::AccuracyParameters(/*fitting_tolerance=*/1 * Metre,
                                /*geopotential_tolerance=*/0x1p-24),
        Eph::FixedStepParameters(integrator(), step_));
  }

  std::string TimeText(Instant const& t) const {
    double const d = (t - t0_) / step_;
    if (d == std::numeric_limits<double>::infinity()) return "+inf";
    if (d == -std::numeric_limits<double>::infinity()) return "-inf";
    if (d != std::round(d)) return "bad";
    return std::to_string(static_cast<int>(d));
  }

  struct Batch {
    std::string hash;
    bool agree = true;  // All the functions that evaluate agree.
    bool close = true;  // The motion is physically correct.
    double error = 0;
  };

  // The bodies must be those constructed by `Make`, in the same order.
  bool BodiesOk(Eph const& ephemeris) const {
    auto const& bodies = ephemeris.bodies();
    bool ok = bodies.size() == options_.bodies;
    for (int i = 0; ok && i < bodies.size(); ++i) {
      ok &= bodies[i]->name() == "body" + std::to_string(i) &&
            bodies[i]->gravitational_parameter() == Mu(i) &&
            bodies[i]->is_oblate() == (i == options_.oblate);
    }
    return ok;
  }

  // Observes the trajectories for the batch of 8 steps that starts at `begin`.
  Batch Observe(Eph const& ephemeris, int const begin) const {
    Batch batch;
    Hasher hash;
    auto const& bodies = ephemeris.bodies();
    for (double const i : {0.25, 3.0, 8.0}) {
      Instant const t = At(begin + i);
      auto const q = ephemeris.EvaluateAllPositions(t);
      auto const v = ephemeris.EvaluateAllVelocities(t);
      auto const dof = ephemeris.EvaluateAllDegreesOfFreedom(t);
      batch.agree &= q.size() == bodies.size() && v.size() == bodies.size() &&
                     dof.size() == bodies.size();
      for (int b = 0; b < bodies.size(); ++b) {
        auto const body = bodies[b];
        auto const d = ephemeris.trajectory(body)->EvaluateDegreesOfFreedom(t);
        batch.agree &= d == dof.at(body) && d.position() == q.at(body) &&
                       d.velocity() == v.at(body) && bodies.size() > b;
        auto const x = (d.position() - World::origin).coordinates();
        auto const y = d.velocity().coordinates();
        for (auto const& c : {x.x, x.y, x.z}) hash(c / Metre);
        for (auto const& c : {y.x, y.y, y.z}) hash(c / (Metre / Second));
        if (options_.bodies == 2 && options_.oblate == -1) {
          auto const expected = Motion(b, begin + i);
          double const error =
              (d.position() - expected.position()).Norm() /
                  (kDistance * Metre) +
              (d.velocity() - expected.velocity()).Norm() /
                  (mu_ / kDistance > 0
                       ? std::sqrt(mu_ / kDistance) * Metre / Second
                       : 1 * Metre / Second);
          batch.error = std::max(batch.error, error);
          batch.close &= error < 1e-3;
        }
      }
    }
    batch.hash = hash.text();
    return batch;
  }

  struct Checkpoint {
    int t;
    std::string hash;
  };

  // The checkpoints in a message, in order.
  std::vector<Checkpoint> Checkpoints(
      principia::serialization::Ephemeris const& message,
      bool& consistent) const {
    std::vector<Checkpoint> result;
    consistent = true;
    for (int i = 0; i < message.checkpoint_size(); ++i) {
      auto const& checkpoint = message.checkpoint(i);
      Hasher hash;
      hash(checkpoint.SerializeAsString());
      for (auto const& trajectory : message.trajectory()) {
        consistent &=
            trajectory.checkpoint_size() == message.checkpoint_size() &&
            trajectory.checkpoint(i).time().SerializeAsString() ==
                checkpoint.time().SerializeAsString();
        if (consistent) {
          hash(trajectory.checkpoint(i).SerializeAsString());
        }
      }
      Instant const t = Instant::ReadFromMessage(checkpoint.time());
      result.push_back({static_cast<int>(std::lround((t - t0_) / step_)),
                        hash.text()});
      consistent &= t == At(result.back().t);
    }
    return result;
  }

 private:
  EphemerisOptions const options_;
  Time const step_;
  Instant const t0_;
  double mu_;
};

}  // namespace verif
