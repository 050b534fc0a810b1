// Frames of a game where parts are created, destroyed, collide, and are moved.
#define VERIF_BARYCENTRIC
#include <map>
#include <new>
#include <set>

#include "ksp_plugin/part.hpp"
#include "ksp_plugin/part_subsets.hpp"
#include "ksp_plugin/pile_up.hpp"

#include "ephemeris_ops.hpp"
#include "geometry/permutation.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/space_transformations.hpp"
#include "ksp_plugin/integrators.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/rigid_motion.hpp"
#include "seq_driver.hpp"

namespace verif {

using namespace principia::base::_disjoint_sets;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space_transformations;
using namespace principia::ksp_plugin::_frames;
using namespace principia::ksp_plugin::_identification;
using namespace principia::ksp_plugin::_integrators;
using namespace principia::ksp_plugin::_part;
using namespace principia::ksp_plugin::_pile_up;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_tensors;

// The memory for the piles up is never reused, so that their addresses identify
// them.
constexpr std::size_t kArena = std::size_t{1} << 36;
char* arena = nullptr;
std::size_t arena_used = 0;

void* Allocate(std::size_t const size) {
  if (size >= sizeof(PileUp) && size <= sizeof(PileUp) + 64) {
    if (arena == nullptr) {
      arena = static_cast<char*>(mmap(nullptr,
                                      kArena,
                                      PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS |
                                          MAP_NORESERVE,
                                      -1,
                                      0));
    }
    char* const p = arena + arena_used;
    arena_used += (size + 63) / 64 * 64;
    return p;
  }
  return std::malloc(size);
}

void Free(void* const p) {
  if (arena != nullptr && p >= arena && p < arena + kArena) return;
  std::free(p);
}

}  // namespace verif

void* operator new(std::size_t const size) { return verif::Allocate(size); }
void operator delete(void* const p) noexcept { verif::Free(p); }
void operator delete(void* const p, std::size_t) noexcept { verif::Free(p); }

namespace verif {

using V3 = R3Element<double>;

V3 Operator(double const (&m)[3][3], V3 const& v) {
  return {m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z,
          m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z,
          m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z};
}

struct Model {
  double mass;
  double inertia[3];
  double mass_change = 0;
  bool motor = false;
  V3 force{0, 0, 0};
  V3 torque{0, 0, 0};
};

// The motion of a part in an inertial frame.
struct Motion3 {
  V3 q, v, w;
  V3 axes[3];
};

// The motion that a pile up is expected to have.
struct Expected {
  DegreesOfFreedom<Barycentric> dof;
  V3 momentum;
  std::set<int> parts;
};

class Scenario {
 public:
  explicit Scenario(Rng& rng) : rng_(rng), factory_(MakeOptions(rng)) {
    ephemeris_ = factory_.Make();
    t_ = 500 + rng_(1000) / 8.0;
    ephemeris_->Prolong(T(3000)).IgnoreError();
  }

  // A part that is symmetrical around an axis turns around an axis that is
  // almost orthogonal to it.
  void SpinAboutEquator() {
    Cfg({{"max", 1}});
    auto const dof = Base();
    Model m;
    m.mass = 10;
    m.inertia[0] = m.inertia[2] = 10 / 3.0;
    m.inertia[1] = 6;
    models_[1] = m;
    RigidMotion<RigidPart, Barycentric> const motion(
        RigidTransformation<RigidPart, Barycentric>(
            RigidPart::origin,
            dof.position(),
            Permutation<RigidPart, Barycentric>(OddPermutation::XZY)
                .Forget<OrthogonalMap>()),
        AngularVelocity<Barycentric>({0.2025 * Radian / Second,
                                      0.08706 * Radian / Second,
                                      3e-17 * Radian / Second}),
        dof.velocity());
    parts_[1] = std::make_unique<Part>(
        1,
        "part",
        m.mass * Kilogram,
        EccentricPart::origin,
        Inertia(m),
        motion * RigidMotion<EccentricPart, RigidPart>::Identity(),
        [this]() { ++deletions_; });
    parts_[1]->make_truthful();
    Subset<Part>::MakeSingleton(*parts_[1], parts_[1].get());
    Subset<Part>::Find(*parts_[1]).mutable_properties().Collect(
        pile_ups_,
        T(t_),
        DefaultPsychohistoryParameters(),
        DefaultHistoryParameters(),
        ephemeris_.get());
    double const angle = std::sqrt(0.2025 * 0.2025 + 0.08706 * 0.08706);
    bool const status = pile_ups_.front()->DeformAndAdvanceTime(T(t_ + 1)).ok();
    auto const after = Of(parts_[1]->rigid_motion(), dof);
    V3 const& axis = after.axes[1];
    double const actual = std::atan2(std::hypot(axis.x, axis.y), axis.z);
    bool const slow = std::abs(actual - angle * (10 / 3.0) / 6) < 1e-3;
    Ev("equator", {{"status", status},
                   {"turns", std::abs(actual - angle) < 1e-6 ? "right"
                             : slow ? "as if around the axis of symmetry"
                                    : "wrong"}});
    Destroy(1);
    Ev("over", {{"live", static_cast<int>(pile_ups_.size())}});
  }

  void Run() {
    int const max_parts = rng_(2, 7);
    Cfg({{"max", max_parts}});
    int const frames = rng_(2, 9);
    for (int i = 0; i < frames; ++i) {
      Frame1(max_parts);
    }
    while (!parts_.empty()) {
      Destroy(parts_.begin()->first);
    }
    Ev("over", {{"live", static_cast<int>(pile_ups_.size())}});
  }

 private:
  static EphemerisOptions MakeOptions(Rng& rng) {
    EphemerisOptions options;
    options.step_seconds = 10;
    options.period = 4000;
    options.all_rotating = true;
    return options;
  }

  Instant T(double const s) const { return factory_.At(0) + s * Second; }

  double D(int const n) { return rng_(-n, n) + rng_(1000) / 1000.0; }
  V3 Random(double const scale) {
    return V3{D(10), D(10), D(10)} * (scale / 10);
  }

  OrthogonalMap<Barycentric, Barycentric> RandomRotation() {
    V3 const v = Random(1);
    return Rotation<Barycentric, Barycentric>(
               rng_(360) * Degree,
               Bivector<double, Barycentric>({v.x + 0.01, v.y, v.z}))
        .Forget<OrthogonalMap>();
  }

  OrthogonalMap<RigidPart, Barycentric> RandomAttitude() {
    return RandomRotation() *
           Permutation<RigidPart, Barycentric>(
               OddPermutation::XZY).Forget<OrthogonalMap>();
  }

  InertiaTensor<RigidPart> Inertia(Model const& m) const {
    auto const u = Kilogram * Metre * Metre;
    return InertiaTensor<RigidPart>(R3x3Matrix<MomentOfInertia>(
        {m.inertia[0] * u, 0 * u, 0 * u},
        {0 * u, m.inertia[1] * u, 0 * u},
        {0 * u, 0 * u, m.inertia[2] * u}));
  }

  Model MakeModel() {
    Model m;
    m.mass = std::vector<double>{1, 10, 100, 1000}[rng_(4)] * rng_(1, 9);
    double const a = rng_(1, 5), b = rng_(1, 5), c = rng_(1, 5);
    // A box.
    m.inertia[0] = m.mass * (b * b + c * c) / 12;
    m.inertia[1] = m.mass * (a * a + c * c) / 12;
    m.inertia[2] = m.mass * (b * b + a * a) / 12;
    return m;
  }

  DegreesOfFreedom<Barycentric> Base() const {
    auto const centre = ephemeris_->trajectory(ephemeris_->bodies()[0])
                            ->EvaluateDegreesOfFreedom(T(t_));
    double const r = 0.6 * EphemerisFactory::kDistance;
    return {centre.position() + Displacement<Barycentric>(
                                    {0 * Metre, r * Metre, 0 * Metre}),
            centre.velocity()};
  }

  void Create(int const id) {
    Model const m = MakeModel();
    models_[id] = m;
    DegreesOfFreedom<Barycentric> base = Base();
    if (!parts_.empty() && rng_.Chance(90)) {
      base = (*parts_.begin()->second)
                 .rigid_motion()({RigidPart::origin, RigidPart::unmoving});
    }
    V3 const dq = Random(10), dv = Random(1), w = Random(0.3);
    auto const attitude = RandomAttitude();
    RigidTransformation<RigidPart, Barycentric> const transformation(
        RigidPart::origin,
        base.position() + Displacement<Barycentric>({dq.x * Metre,
                                                     dq.y * Metre,
                                                     dq.z * Metre}),
        attitude);
    RigidMotion<RigidPart, Barycentric> const motion(
        transformation,
        AngularVelocity<Barycentric>({w.x * Radian / Second,
                                      w.y * Radian / Second,
                                      w.z * Radian / Second}),
        base.velocity() + Velocity<Barycentric>({dv.x * Metre / Second,
                                                 dv.y * Metre / Second,
                                                 dv.z * Metre / Second}));
    parts_[id] = std::make_unique<Part>(
        id,
        "part" + std::to_string(id),
        m.mass * Kilogram,
        EccentricPart::origin,
        Inertia(m),
        motion * RigidMotion<EccentricPart, RigidPart>::Identity(),
        [this]() { ++deletions_; });
    parts_[id]->make_truthful();
  }

  void Destroy(int const id) {
    int const deletions = deletions_;
    parts_[id]->reset_containing_pile_up();
    parts_.erase(id);
    models_.erase(id);
    ok_ &= deletions_ == deletions + 1;
  }

  static Motion3 Of(RigidMotion<RigidPart, Barycentric> const& m,
                    DegreesOfFreedom<Barycentric> const& origin) {
    Motion3 r;
    auto const d = m({RigidPart::origin, RigidPart::unmoving});
    r.q = (d.position() - origin.position()).coordinates() / Metre;
    r.v = (d.velocity() - origin.velocity()).coordinates() / (Metre / Second);
    r.w = m.angular_velocity_of<RigidPart>().coordinates() / (Radian / Second);
    r.axes[0] = m.orthogonal_map()(Vector<double, RigidPart>({1, 0, 0}))
                    .coordinates();
    r.axes[1] = m.orthogonal_map()(Vector<double, RigidPart>({0, 1, 0}))
                    .coordinates();
    r.axes[2] = m.orthogonal_map()(Vector<double, RigidPart>({0, 0, 1}))
                    .coordinates();
    return r;
  }

  V3 Spin(int const id, Motion3 const& m) const {
    V3 result{0, 0, 0};
    for (int i = 0; i < 3; ++i) {
      result += m.axes[i] * (models_.at(id).inertia[i] * Dot(m.axes[i], m.w));
    }
    return result;
  }

  // The barycentre of a set of parts.
  DegreesOfFreedom<Barycentric> Barycentre(std::set<int> const& ids) const {
    auto const origin = parts_.at(*ids.begin())
                            ->rigid_motion()({RigidPart::origin,
                                              RigidPart::unmoving});
    V3 q{0, 0, 0}, v{0, 0, 0};
    double mass = 0;
    for (int const id : ids) {
      auto const m = Of(parts_.at(id)->rigid_motion(), origin);
      q += m.q * models_.at(id).mass;
      v += m.v * models_.at(id).mass;
      mass += models_.at(id).mass;
    }
    q = q / mass;
    v = v / mass;
    return {origin.position() + Displacement<Barycentric>(
                {q.x * Metre, q.y * Metre, q.z * Metre}),
            origin.velocity() + Velocity<Barycentric>(
                {v.x * Metre / Second, v.y * Metre / Second,
                 v.z * Metre / Second})};
  }

  V3 Momentum(std::set<int> const& ids,
              DegreesOfFreedom<Barycentric> const& centre) const {
    V3 result{0, 0, 0};
    for (int const id : ids) {
      auto const m = Of(parts_.at(id)->rigid_motion(), centre);
      result += Cross(m.q, m.v) * models_.at(id).mass + Spin(id, m);
    }
    return result;
  }

  // Integrates the free rotation of a rigid body having the given parts, and
  // returns the images of the axes.
  std::array<V3, 3> FreeRotation(std::map<int, Motion3> const& parts,
                                 V3 const& momentum,
                                 double const Δt) const {
    double m[3][3] = {};
    for (auto const& [id, part] : parts) {
      Model const& model = models_.at(id);
      double const q[3] = {part.q.x, part.q.y, part.q.z};
      double const q2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2];
      for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
          m[i][j] += model.mass * ((i == j ? q2 : 0) - q[i] * q[j]);
          for (int k = 0; k < 3; ++k) {
            double const a[3] = {
                part.axes[k].x, part.axes[k].y, part.axes[k].z};
            m[i][j] += model.inertia[k] * a[i] * a[j];
          }
        }
      }
    }
    V3 const r0{m[0][0], m[0][1], m[0][2]}, r1{m[1][0], m[1][1], m[1][2]},
        r2{m[2][0], m[2][1], m[2][2]};
    double const determinant = Dot(r0, Cross(r1, r2));
    V3 const c0 = Cross(r1, r2) / determinant, c1 = Cross(r2, r0) / determinant,
             c2 = Cross(r0, r1) / determinant;
    using Axes = std::array<V3, 3>;
    auto const ω = [&](Axes const& r) {
      V3 const l{Dot(r[0], momentum), Dot(r[1], momentum), Dot(r[2], momentum)};
      V3 const w = c0 * l.x + c1 * l.y + c2 * l.z;
      return r[0] * w.x + r[1] * w.y + r[2] * w.z;
    };
    auto const rate = [&](Axes const& r) {
      V3 const w = ω(r);
      return Axes{Cross(w, r[0]), Cross(w, r[1]), Cross(w, r[2])};
    };
    auto const plus = [](Axes const& a, Axes const& b, double const h) {
      return Axes{a[0] + b[0] * h, a[1] + b[1] * h, a[2] + b[2] * h};
    };
    Axes r{V3{1, 0, 0}, V3{0, 1, 0}, V3{0, 0, 1}};
    // The angular velocity is not constant: overestimate it.
    int const n = 4 + 3 * ω(r).Norm() * Δt / 0.02;
    if (n > 30000) {
      r[0] = {0, 0, 0};
      return r;
    }
    double const h = Δt / n;
    for (int i = 0; i < n; ++i) {
      Axes const k1 = rate(r);
      Axes const k2 = rate(plus(r, k1, h / 2));
      Axes const k3 = rate(plus(r, k2, h / 2));
      Axes const k4 = rate(plus(r, k3, h));
      r = plus(plus(plus(plus(r, k1, h / 6), k2, h / 3), k3, h / 3), k4, h / 6);
    }
    return r;
  }

  double MomentumScale(std::set<int> const& ids) const {
    double result = 1e-3;
    for (int const id : ids) {
      result += models_.at(id).mass;
    }
    return result * 100;
  }

  std::set<int> Component(std::vector<std::vector<int>> const& edges,
                          int const id) const {
    std::set<int> result{id};
    for (bool changed = true; changed;) {
      changed = false;
      for (auto const& e : edges) {
        if (result.contains(e[0]) != result.contains(e[1])) {
          result.insert(e[0]);
          result.insert(e[1]);
          changed = true;
        }
      }
    }
    return result;
  }

  int Id(PileUp* const p) {
    if (p == nullptr) return 0;
    auto const it = ids_.find(p);
    if (it != ids_.end()) return it->second;
    return ids_[p] = ++last_id_;
  }

  std::vector<std::vector<int>> PileUpOfParts() {
    std::vector<std::vector<int>> result;
    for (auto const& [id, part] : parts_) {
      ok_ &= part->is_piled_up() == (part->containing_pile_up() != nullptr);
      result.push_back({id, Id(part->containing_pile_up())});
    }
    return result;
  }

  void Frame1(int const max_parts) {
    ok_ = true;
    std::vector<int> created, destroyed, grounded;
    // Between frames.
    for (int k = rng_(4); k > 0 && parts_.size() < max_parts; --k) {
      int const id = ++last_part_;
      Create(id);
      created.push_back(id);
    }
    if (parts_.size() > 1 && rng_.Chance(15)) {
      int const id = std::next(parts_.begin(), rng_(parts_.size()))->first;
      destroyed.push_back(id);
      Destroy(id);
    }
    for (auto const& [id, part] : parts_) {
      Subset<Part>::MakeSingleton(*part, part.get());
    }
    // A part that is not kept.
    if (parts_.size() > 1 && rng_.Chance(15)) {
      int const id = std::next(parts_.begin(), rng_(parts_.size()))->first;
      destroyed.push_back(id);
      Destroy(id);
    }
    if (parts_.empty()) {
      return;
    }
    std::vector<int> alive;
    for (auto const& [id, part] : parts_) alive.push_back(id);
    // The collisions: often the same ones as before.
    std::vector<std::vector<int>> edges;
    if (rng_.Chance(60)) {
      for (auto const& e : last_edges_) {
        if (parts_.contains(e[0]) && parts_.contains(e[1]) &&
            !rng_.Chance(10)) {
          edges.push_back(rng_.Chance(50) ? e
                                          : std::vector<int>{e[1], e[0]});
        }
      }
      if (rng_.Chance(20)) {
        edges.push_back({alive[rng_(alive.size())], alive[rng_(alive.size())]});
      }
    } else {
      for (int k = rng_(alive.size() + 2); k > 0; --k) {
        edges.push_back({alive[rng_(alive.size())], alive[rng_(alive.size())]});
      }
    }
    for (int i = edges.size() - 1; i > 0; --i) {
      std::swap(edges[i], edges[rng_(i + 1)]);
    }
    last_edges_ = edges;
    int const ground_at =
        rng_.Chance(12) ? rng_(static_cast<int>(edges.size()) + 1) : -1;
    int const ground = alive[rng_(alive.size())];
    // What the game does, for each component.
    double const Δt = rng_.Chance(70) ? 0.02 * rng_(1, 50) : rng_(1, 40);
    std::set<int> loaded;
    std::set<int> seen;
    for (int const id : alive) {
      if (seen.contains(id)) continue;
      auto const component = Component(edges, id);
      seen.insert(component.begin(), component.end());
      bool const is_loaded = Δt < 2 && rng_.Chance(60);
      bool const forced = rng_.Chance(40);
      for (int const p : component) {
        Model& m = models_[p];
        Part& part = *parts_[p];
        m.force = m.torque = {0, 0, 0};
        part.clear_intrinsic_force();
        part.clear_intrinsic_torque();
        m.motor = rng_.Chance(30);
        part.set_is_solid_rocket_motor(m.motor);
        double const mass =
            is_loaded && rng_.Chance(50) ? m.mass * rng_(90, 110) / 100.0
                                         : m.mass;
        m.mass_change = mass - m.mass;
        for (double& i : m.inertia) i *= mass / m.mass;
        m.mass = mass;
        part.set_mass(mass * Kilogram);
        part.set_inertia_tensor(Inertia(m));
        ok_ &= std::abs(part.mass_change() / Kilogram - m.mass_change) < 1e-9;
        if (forced && rng_.Chance(70)) {
          for (int k = rng_(1, 2); k > 0; --k) {
            V3 const f = Random(10) * m.mass;
            m.force += f;
            part.apply_intrinsic_force(Vector<Force, Barycentric>(
                {f.x * Newton, f.y * Newton, f.z * Newton}));
          }
        }
        if (is_loaded && rng_.Chance(50)) {
          V3 const f = Random(1) * m.mass;
          m.torque += f;
          part.apply_intrinsic_torque(Bivector<Torque, Barycentric>(
              {f.x * si::Unit<Torque>, f.y * si::Unit<Torque>,
               f.z * si::Unit<Torque>}));
        }
        if (is_loaded && rng_.Chance(20)) {
          V3 const f = Random(5) * m.mass, arm = Random(1);
          m.force += f;
          m.torque += Cross(arm, f);
          part.ApplyIntrinsicForceWithLeverArm(
              Vector<Force, Barycentric>(
                  {f.x * Newton, f.y * Newton, f.z * Newton}),
              Displacement<Barycentric>(
                  {arm.x * Metre, arm.y * Metre, arm.z * Metre}));
        }
        if (is_loaded) loaded.insert(p);
      }
    }
    // Report the collisions.
    for (int i = 0; i <= edges.size(); ++i) {
      if (i == ground_at) {
        Subset<Part>::Find(*parts_[ground]).mutable_properties().Ground();
        grounded.push_back(ground);
      }
      if (i < edges.size()) {
        Subset<Part>::Unite(Subset<Part>::Find(*parts_[edges[i][0]]),
                            Subset<Part>::Find(*parts_[edges[i][1]]));
      }
    }
    std::set<int> grounded_parts;
    for (auto const& [id, part] : parts_) {
      if (Subset<Part>::Find(*part).properties().grounded()) {
        grounded_parts.insert(id);
      }
    }
    for (int const id : grounded_parts) Destroy(id);
    // Collect.
    for (int k = 0; k < 2; ++k) {
      for (int const id : alive) {
        if (!parts_.contains(id)) continue;
        if (k == 0 && rng_.Chance(60)) continue;
        Subset<Part>::Find(*parts_[id]).mutable_properties().Collect(
            pile_ups_,
            T(t_),
            DefaultPsychohistoryParameters(),
            DefaultHistoryParameters(),
            ephemeris_.get());
      }
    }
    auto const piles = PileUpOfParts();
    bool listed = true;
    std::map<int, std::set<int>> members;
    std::map<int, PileUp*> objects;
    for (auto const& p : piles) members[p[1]].insert(p[0]);
    for (PileUp* const p : pile_ups_) {
      listed &= p != nullptr && members.contains(Id(p));
      objects[Id(p)] = p;
    }
    Ev("frame", {{"created", created},
                 {"destroyed", destroyed},
                 {"alive", alive},
                 {"edges", edges},
                 {"ground", grounded},
                 {"grounded",
                  std::vector<int>(grounded_parts.begin(),
                                   grounded_parts.end())},
                 {"piles", piles},
                 {"live", static_cast<int>(pile_ups_.size())},
                 {"listed", listed && members.size() == objects.size()},
                 {"ok", ok_}});
    // Update what is expected.
    for (auto it = expected_.begin(); it != expected_.end();) {
      it = members.contains(it->first) ? std::next(it) : expected_.erase(it);
    }
    for (auto const& [p, ids] : members) {
      if (p == 0) continue;
      if (!expected_.contains(p)) {
        auto const barycentre = Barycentre(ids);
        expected_.emplace(
            p, Expected{barycentre, Momentum(ids, barycentre), ids});
      }
      auto const& object = *objects[p];
      bool same = object.parts().size() == ids.size();
      for (auto const part : object.parts()) {
        same &= ids.contains(part->part_id());
      }
      ok_ &= same;
    }
    for (auto const& [p, ids] : members) {
      if (p == 0) continue;
      Advance(p, *objects[p], ids, loaded, Δt);
    }
    t_ += Δt;
    for (auto const& [id, part] : parts_) {
      part->ClearHistory();
    }
    if (rng_.Chance(12)) {
      Reread();
    }
  }

  void Advance(int const p,
               PileUp& pile_up,
               std::set<int> const& ids,
               std::set<int> const& loaded,
               double const Δt) {
    Expected& expected = expected_.at(p);
    bool const is_loaded = loaded.contains(*ids.begin());
    Instant const t0 = T(t_);
    Instant const t = T(t_ + Δt);
    // The forces.
    double mass = 0;
    V3 force{0, 0, 0};
    V3 torque{0, 0, 0};
    V3 change{0, 0, 0};
    std::map<int, Motion3> before;
    for (int const id : ids) {
      Model const& m = models_.at(id);
      auto const motion = Of(parts_.at(id)->rigid_motion(), expected.dof);
      before[id] = motion;
      mass += m.mass;
      force += m.force;
      torque += Cross(motion.q, m.force) + m.torque;
      if (m.motor) {
        change += Cross(motion.q, motion.v) * m.mass_change +
                  Spin(id, motion) * (m.mass_change / m.mass);
      }
    }
    // The apparent motions.
    bool const deformed = rng_.Chance(50);
    std::map<int, Motion3> apparent;
    bool attitude_known = !is_loaded;
    if (is_loaded) {
      attitude_known = !deformed;
      auto const rotation =
          OrthogonalMap<Barycentric, Apparent>::Identity() *
          (rng_.Chance(50) ? OrthogonalMap<Barycentric, Barycentric>::Identity()
                           : RandomRotation());
      RigidMotion<Barycentric, Apparent> const motion(
          RigidTransformation<Barycentric, Apparent>(
              expected.dof.position(),
              Apparent::origin +
                  Displacement<Apparent>({rng_(1000) * Metre,
                                          rng_(1000) * Metre,
                                          rng_(1000) * Metre}),
              rotation),
          Barycentric::nonrotating,
          expected.dof.velocity());
      for (int const id : ids) {
        RigidMotion<RigidPart, Barycentric> part_motion =
            parts_.at(id)->rigid_motion();
        if (deformed) {
          V3 const dq = Random(0.1), dv = Random(0.1), w = Random(0.05);
          auto const d = part_motion({RigidPart::origin, RigidPart::unmoving});
          part_motion = RigidMotion<RigidPart, Barycentric>(
              RigidTransformation<RigidPart, Barycentric>(
                  RigidPart::origin,
                  d.position() + Displacement<Barycentric>({dq.x * Metre,
                                                            dq.y * Metre,
                                                            dq.z * Metre}),
                  part_motion.orthogonal_map()),
              part_motion.angular_velocity_of<RigidPart>() +
                  AngularVelocity<Barycentric>({w.x * Radian / Second,
                                                w.y * Radian / Second,
                                                w.z * Radian / Second}),
              d.velocity() + Velocity<Barycentric>({dv.x * Metre / Second,
                                                    dv.y * Metre / Second,
                                                    dv.z * Metre / Second}));
        }
        apparent[id] = Of(part_motion, expected.dof);
        pile_up.SetPartApparentRigidMotion(parts_.at(id).get(),
                                           motion * part_motion);
      }
      expected.momentum += torque * Δt + change;
    } else {
      apparent = before;
    }
    // The motion of the barycentre.
    DiscreteTrajectory<Barycentric> reference;
    reference.Append(t0, expected.dof).IgnoreError();
    V3 const a = force / mass;
    ephemeris_->FlowWithAdaptiveStep(
        &reference,
        [a](Instant const&) {
          auto const u = Metre / (Second * Second);
          return Vector<Acceleration, Barycentric>({a.x * u, a.y * u, a.z * u});
        },
        t,
        DefaultPsychohistoryParameters(),
        1000000).IgnoreError();
    bool const status = pile_up.DeformAndAdvanceTime(t).ok();
    auto const barycentre = Barycentre(ids);
    auto const goal = reference.back().degrees_of_freedom;
    double const dq =
        (barycentre.position() - goal.position()).Norm() / Metre;
    double const dv =
        (barycentre.velocity() - goal.velocity()).Norm() / (Metre / Second);
    bool const centre_ok = reference.back().time == t && dq < 1e-2 && dv < 5e-3;
    V3 const momentum = Momentum(ids, barycentre);
    // The shape.
    std::map<int, Motion3> after;
    bool shape_ok = true;
    for (int const id : ids) {
      after[id] = Of(parts_.at(id)->rigid_motion(), barycentre);
    }
    // The positions and velocities are rounded.
    double tolerance = 1e-5 * (momentum.Norm() + expected.momentum.Norm() +
                               MomentumScale(ids));
    for (int const id : ids) {
      tolerance += models_.at(id).mass *
                   (1e-5 * after[id].q.Norm() + 1e-3 * after[id].v.Norm());
    }
    bool const momentum_ok =
        (momentum - expected.momentum).Norm() < tolerance;
    for (int const i : ids) {
      for (int const j : ids) {
        shape_ok &= std::abs((after[i].q - after[j].q).Norm() -
                             (apparent[i].q - apparent[j].q).Norm()) < 1e-5;
        for (int const k : {0, 1, 2}) {
          shape_ok &= std::abs(Dot(after[i].axes[k], after[j].axes[k]) -
                               Dot(apparent[i].axes[k], apparent[j].axes[k])) <
                      1e-5;
          shape_ok &=
              std::abs(Dot(after[i].axes[k], after[i].q - after[j].q) -
                       Dot(apparent[i].axes[k],
                           apparent[i].q - apparent[j].q)) < 1e-4;
        }
      }
    }
    // The overall rotation of the game is irrelevant.
    bool attitude_ok = true;
    if (attitude_known && is_loaded) {
      double least = 0;
      for (int const id : ids) {
        Model const& m = models_.at(id);
        least += std::min({m.inertia[0], m.inertia[1], m.inertia[2]});
      }
      double const bound = expected.momentum.Norm() / least * Δt + 1e-5;
      for (int const id : ids) {
        for (int const k : {0, 1, 2}) {
          attitude_ok &=
              (after[id].axes[k] - before[id].axes[k]).Norm() <= bound;
        }
      }
    }
    double turn_error = 0;
    if (!is_loaded) {
      auto const r = FreeRotation(before, momentum, Δt);
      for (int const id : ids) {
        for (int const k : {0, 1, 2}) {
          V3 const& a = before[id].axes[k];
          turn_error = std::max(
              turn_error,
              (r[0] * a.x + r[1] * a.y + r[2] * a.z - after[id].axes[k])
                  .Norm());
        }
      }
      // The rotation may be sensitive to perturbations.
      double const size = momentum.Norm() * 1e-6;
      V3 const perturbation{size, -size, size};
      auto const r1 = FreeRotation(before, momentum + perturbation, Δt);
      // See `SpinAboutEquator`.
      bool equatorial = false;
      if (ids.size() == 1) {
        int const id = *ids.begin();
        auto const& i = models_.at(id).inertia;
        for (int const k : {0, 1, 2}) {
          equatorial |= std::abs(i[(k + 1) % 3] - i[(k + 2) % 3]) <
                            1e-9 * i[k] &&
                        std::abs(Dot(before[id].axes[k], momentum)) <
                            1e-9 * momentum.Norm();
        }
      }
      if (equatorial || r[0].Norm() == 0 || r1[0].Norm() == 0 ||
          (r1[0] - r[0]).Norm() + (r1[1] - r[1]).Norm() +
                  (r1[2] - r[2]).Norm() > 5e-3) {
        turn_error = 0;
      }
      attitude_ok &= turn_error < 5e-2;
    }
    // The points for the histories.  When there is a history, the psychohistory
    // starts with its last point.
    int history_error = 0;
    auto const history = [&history_error](int const n, bool const ok) {
      if (!ok) history_error = n;
    };
    std::map<double, std::pair<int, V3>> points;
    for (int const id : ids) {
      Part& part = *parts_.at(id);
      // There may be a part of an earlier psychohistory.
      double previous = 0;
      Instant previous_time = factory_.At(0);
      DegreesOfFreedom<Barycentric> last = expected.dof;
      auto const add = [&](auto const& point) {
        double const time = factory_.At(0) == point.time
                                ? 0
                                : (point.time - factory_.At(0)) / Second;
        history(1, time > previous);
        previous = time;
        previous_time = point.time;
        last = point.degrees_of_freedom;
        auto& [n, q] = points[time];
        ++n;
        q += (last.position() - expected.dof.position()).coordinates() /
             Metre * (models_.at(id).mass / mass);
      };
      for (auto it = part.history_begin(); it != part.history_end(); ++it) {
        add(*it);
      }
      for (auto it = part.psychohistory_begin();
           it != part.psychohistory_end(); ++it) {
        if (it == part.psychohistory_begin() &&
            part.history_begin() != part.history_end()) {
          history(2, it->time == previous_time &&
                        it->degrees_of_freedom == last);
        } else {
          add(*it);
        }
      }
      auto const d =
          part.rigid_motion()({RigidPart::origin, RigidPart::unmoving});
      history(3, previous_time == t &&
                    (d.position() - last.position()).Norm() < 1e-4 * Metre &&
                    (d.velocity() - last.velocity()).Norm() <
                        5e-3 * Metre / Second);
    }
    double dh = 0;
    for (auto const& [time, nq] : points) {
      history(4, nq.first == ids.size());
      if (time < t_) continue;
      auto const q = (reference.EvaluatePosition(
                          std::min(factory_.At(0) + time * Second, t)) -
                      expected.dof.position()).coordinates() / Metre;
      dh = std::max(dh, (q - nq.second).Norm());
    }
    history(5, dh < 1);
    expected.dof = barycentre;
    expected.momentum = momentum;
    Ev("advance", {{"pile", p},
                   {"parts", std::vector<int>(ids.begin(), ids.end())},
                   {"status", status},
                   {"loaded", is_loaded},
                   {"centre", centre_ok},
                   {"momentum", momentum_ok},
                   {"shape", shape_ok},
                   {"attitude", attitude_ok},
                   {"history", history_error},
                   {"ok", ok_}});
    if (getenv("VERIF_DEBUG") != nullptr) {
      std::fprintf(stderr, "dq %g dv %g turn %g L %g %g %g Dt %g loaded %d n %d\n",
                   dq, dv, turn_error, momentum.Norm(), expected.momentum.Norm(),
                   MomentumScale(ids), Δt, is_loaded, (int)ids.size());
    }
  }

  // Writes everything and reads it.
  void Reread() {
    std::map<PileUp const*, int> indices;
    std::vector<principia::serialization::PileUp> pile_up_messages;
    for (PileUp* const p : pile_ups_) {
      indices[p] = pile_up_messages.size();
      p->WriteToMessage(&pile_up_messages.emplace_back());
    }
    std::map<int, principia::serialization::Part> part_messages;
    std::map<int, int> old;
    for (auto const& [id, part] : parts_) {
      old[id] = Id(part->containing_pile_up());
      part->WriteToMessage(
          &part_messages[id],
          [&indices](not_null<PileUp const*> const p) {
            return indices.at(p);
          });
    }
    for (auto const& [id, part] : parts_) {
      part->reset_containing_pile_up();
    }
    bool const all_gone = pile_ups_.empty();
    parts_.clear();
    for (auto const& [id, message] : part_messages) {
      parts_[id] = Part::ReadFromMessage(message, [this]() { ++deletions_; });
    }
    std::vector<not_null<std::shared_ptr<PileUp>>> read;
    for (auto const& message : pile_up_messages) {
      pile_ups_.push_back(nullptr);
      auto const it = std::prev(pile_ups_.end());
      std::shared_ptr<PileUp> pile_up = PileUp::ReadFromMessage(
          message,
          [this](PartId const id) -> not_null<Part*> {
            return parts_.at(id).get();
          },
          ephemeris_.get(),
          [this, it]() { pile_ups_.erase(it); });
      *it = pile_up.get();
      read.push_back(check_not_null(std::move(pile_up)));
    }
    for (auto const& [id, message] : part_messages) {
      parts_[id]->FillContainingPileUpFromMessage(
          message, [&read](int const i) { return read.at(i); });
    }
    bool same = all_gone;
    for (auto const& [id, part] : parts_) {
      // The identities are those of the old piles up.
      PileUp* const p = part->containing_pile_up();
      if (p == nullptr) {
        same &= old[id] == 0;
      } else if (ids_.contains(p)) {
        same &= ids_[p] == old[id];
      } else {
        same &= old[id] != 0;
        ids_[p] = old[id];
      }
    }
    Ev("reread", {{"same", same},
                  {"live", static_cast<int>(pile_ups_.size())},
                  {"piles", PileUpOfParts()}});
  }

  Rng& rng_;
  EphemerisFactory const factory_;
  std::unique_ptr<Eph> ephemeris_;
  double t_;
  std::list<PileUp*> pile_ups_;
  std::map<int, std::unique_ptr<Part>> parts_;
  std::map<int, Model> models_;
  std::map<PileUp*, int> ids_;
  std::map<int, Expected> expected_;
  std::vector<std::vector<int>> last_edges_;
  int last_id_ = 0;
  int last_part_ = 0;
  int deletions_ = 0;
  bool ok_ = true;
};

}  // namespace verif

int main(int argc, char** argv) {
  return verif::SeqMain(
      argc, argv, [](std::int64_t const index, verif::Rng& rng) {
        verif::Scenario scenario(rng);
        if (index == 0) {
          scenario.SpinAboutEquator();
        } else {
          scenario.Run();
        }
      });
}
