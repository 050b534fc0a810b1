// Drives the maps between frames, with integer coefficients.
#include "geometry/affine_map.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/rotation.hpp"
#include "geometry/sign.hpp"
#include "geometry/signature.hpp"
#include "geometry/space.hpp"
#include "geometry/space_transformations.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "physics/rigid_motion.hpp"

#include <cmath>
#include <sstream>

#include "seq_driver.hpp"

using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space;
using namespace principia::geometry::_space_transformations;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_rigid_motion;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace serialization = principia::serialization;
using principia::π;
using verif::Ev;
using verif::Fields;
using verif::J;

namespace {

template<serialization::Frame::TestTag tag, Handedness h>
using TestFrame = Frame<serialization::Frame::TestTag, Arbitrary, h, tag>;
template<Handedness h>
using From = TestFrame<serialization::Frame::TEST, h>;
template<Handedness h>
using Through = TestFrame<serialization::Frame::TEST1, h>;
template<Handedness h>
using To = TestFrame<serialization::Frame::TEST2, h>;
template<Handedness h>
using Middle = TestFrame<serialization::Frame::TEST3, h>;

using V = std::vector<std::int64_t>;

std::int64_t Int(double const x) {
  double const r = std::round(x);
  return std::abs(x - r) < 1e-6 ? r : 999'999'983;
}

V Ints(R3Element<double> const& v) {
  return {Int(v.x), Int(v.y), Int(v.z)};
}

R3Element<double> R3(V const& v) {
  return {double(v[0]), double(v[1]), double(v[2])};
}

std::vector<V> const& Vectors() {
  static std::vector<V> const vectors = {
      {64, 0, 0}, {0, 64, 0}, {0, 0, 64}, {64, -128, 192}};
  return vectors;
}

template<typename M>
struct Frames;
template<template<typename, typename> typename M, typename F, typename T>
struct Frames<M<F, T>> {
  using From = F;
  using To = T;
};
template<template<typename, typename, typename> typename M,
         typename S, typename F, typename T>
struct Frames<M<S, F, T>> {
  using From = F;
  using To = T;
};

// Observes the action of a linear map.
template<typename M>
void Observe(int const id, M const& map) {
  using F = typename Frames<M>::From;
  using T = typename Frames<M>::To;
  auto const io = [&](char const* const e, auto const& f) {
    std::string text = "[";
    for (auto const& v : Vectors()) {
      if (text.size() > 1) text += ",";
      text += "[" + J(v).text + "," + J(f(v)).text + "]";
    }
    J j;
    j.text = text + "]";
    Ev(e, {{"id", id}, {"io", j}});
  };
  io("vec", [&](V const& v) {
    return Ints(map(Vector<double, F>(R3(v))).coordinates());
  });
  io("vec", [&](V const& v) {
    return Ints(map(Vector<Length, F>(R3(v) * Metre)).coordinates() / Metre);
  });
  if constexpr (requires { map(Bivector<double, F>()); }) {
    io("biv", [&](V const& v) {
      return Ints(map(Bivector<double, F>(R3(v))).coordinates());
    });
  }
  if constexpr (requires { map(AngularVelocity<F>()); }) {
    io("biv", [&](V const& v) {
      return Ints(
          map(AngularVelocity<F>(R3(v) * (Radian / Second))).coordinates() /
          (Radian / Second));
    });
  }
  if constexpr (requires { map(Trivector<double, F>(1)); }) {
    J j;
    j.text = "[[7," +
             J(Int(map(Trivector<double, F>(7)).coordinates())).text + "]]";
    Ev("tri", {{"id", id}, {"io", j}});
  }
  auto const form = [&](char const* const e, auto const& f, auto const& g) {
    std::string text;
    for (auto const& matrix : {f, g}) {
      std::string rows;
      for (auto const& row :
           {matrix.row_x(), matrix.row_y(), matrix.row_z()}) {
        if (!rows.empty()) rows += ",";
        rows += J(Ints(row)).text;
      }
      text += (text.empty() ? "[[[" : ",[") + rows + "]";
    }
    J j;
    j.text = text + "]]";
    Ev(e, {{"id", id}, {"io", j}});
  };
  R3x3Matrix<double> const matrix(
      {3, -1, 5}, {-1, 7, 11}, {5, 11, -13});
  if constexpr (requires {
                  map(SymmetricBilinearForm<double, F, Vector>());
                }) {
    form("form", matrix,
         map(SymmetricBilinearForm<double, F, Vector>(matrix)).coordinates());
  }
  if constexpr (requires {
                  map(SymmetricBilinearForm<double, F, Bivector>());
                }) {
    form("formb", matrix,
         map(SymmetricBilinearForm<double, F, Bivector>(matrix))
             .coordinates());
  }
  if constexpr (std::is_same_v<decltype(map.Determinant()), Sign>) {
    Ev("det", {{"id", id}, {"r", static_cast<int>(map.Determinant())}});
  } else {
    // The determinant of a conformal map is the cube of its scale, even if it
    // doesn't preserve the orientation: this is what its tests demand.  The
    // logarithm of the determinant is three times that of the scale.
    double const determinant = map.Determinant();
    Ev("scale",
       {{"id", id}, {"r", Int(std::log2(std::abs(determinant)) / 3)}});
  }
  if constexpr (requires { map.scale(); }) {
    Ev("scale", {{"id", id}, {"r", Int(std::log2(map.scale()))}});
  }
}

// Gives identifiers to the maps, and logs the operations on them.
class Registry {
 public:
  template<typename M>
  void New(char const* const e, M const& map, std::string const& fields) {
    Raw(e, next_, fields);
    Observe(next_, map);
  }
  int Raw(char const* const e, int const id, std::string const& fields) {
    std::string text = "{\"e\":\"" + std::string(e) +
                       "\",\"id\":" + std::to_string(id) +
                       (fields.empty() ? "" : "," + fields) + "}";
    verif::SeqTrace::Get().Add(text);
    return id;
  }
  int Next() { return next_++; }

 private:
  int next_ = 1;
};

Registry* registry;

std::string Field(char const* const name, J const& j) {
  return "\"" + std::string(name) + "\":" + j.text;
}

template<typename M>
struct Map {
  int id;
  M map;
};

template<typename M>
Map<M> Make(char const* const e, std::string const& fields, M const& map,
            bool const observe = true) {
  int const id = registry->Next();
  registry->Raw(e, id, fields);
  if (observe) {
    Observe(id, map);
  }
  return {id, map};
}

template<typename M>
Map<M> Copy(int const a, M const& map, bool const observe = true) {
  return Make("copy", Field("a", a), map, observe);
}

template<typename L, typename R>
auto operator*(Map<L> const& l, Map<R> const& r) {
  return Make("compose", Field("l", l.id) + "," + Field("r", r.id),
              l.map * r.map);
}

template<typename M>
auto Inverse(Map<M> const& a) {
  return Make("inverse", Field("a", a.id), a.map.Inverse());
}

template<typename M>
auto Serialize(Map<M> const& a) {
  serialization::LinearMap message;
  a.map.WriteToMessage(&message);
  return Copy(a.id, M::ReadFromMessage(message));
}

// All that may be done to a map.
template<typename M>
void Everything(Map<M> const& a) {
  Inverse(a);
  Inverse(Inverse(a));
  Serialize(a);
}

template<typename M>
void Name(Map<M> const& a) {
  std::ostringstream s;
  s << a.map;
  Ev("name", {{"id", a.id}, {"name", s.str()}});
}

constexpr Handedness kHandedness[] = {Handedness::Right, Handedness::Left};

constexpr char const* kEven[] = {"XYZ", "YZX", "ZXY"};
constexpr char const* kOdd[] = {"XZY", "ZYX", "YXZ"};

template<typename F, typename T>
Map<Permutation<F, T>> MakePermutation(int const i) {
  if constexpr (F::handedness == T::handedness) {
    using P = EvenPermutation;
    constexpr P values[] = {P::XYZ, P::YZX, P::ZXY};
    return Make("perm", Field("name", kEven[i]),
                Permutation<F, T>(values[i]));
  } else {
    using P = OddPermutation;
    constexpr P values[] = {P::XZY, P::ZYX, P::YXZ};
    return Make("perm", Field("name", kOdd[i]), Permutation<F, T>(values[i]));
  }
}

template<typename F, typename T>
Map<Signature<F, T>> MakeSignature(int const i, int const how) {
  Sign const first = i & 1 ? Sign::Negative() : Sign::Positive();
  Sign const second = i & 2 ? Sign::Negative() : Sign::Positive();
  Sign const determinant = F::handedness == T::handedness ? Sign::Positive()
                                                          : Sign::Negative();
  using D = typename Signature<F, T>::DeduceSign;
  Sign const third = determinant * first * second;
  int const f = first;
  int const s = second;
  int const t = third;
  switch (how % 3) {
    case 0:
      return Make("signature", Field("s", V{f, s, t}),
                  Signature<F, T>(first, second, D()));
    case 1:
      return Make("signature", Field("s", V{f, t, s}),
                  Signature<F, T>(first, D(), second));
    default:
      return Make("signature", Field("s", V{t, f, s}),
                  Signature<F, T>(D(), first, second));
  }
}

template<typename M>
void Forget(Map<M> const& a) {
  using F = typename Frames<M>::From;
  using T = typename Frames<M>::To;
  auto const orthogonal =
      Copy(a.id, a.map.template Forget<OrthogonalMap>());
  Everything(orthogonal);
  Copy(a.id, a.map.template Forget<ConformalMap>());
  auto const conformal =
      Copy(a.id, orthogonal.map.template Forget<ConformalMap>());
  Everything(conformal);
  Copy(a.id, conformal.map.orthogonal_map¹₁());
  if constexpr (F::handedness == T::handedness) {
    Copy(a.id, orthogonal.map.AsRotation());
  }
}

// An orthogonal map, by its index between 0 and 23.
template<typename F, typename T>
Map<OrthogonalMap<F, T>> MakeOrthogonal(int const i) {
  auto const via = [&]<Handedness h>() {
    using M = Middle<h>;
    auto const p = MakePermutation<F, M>(i % 12 % 3);
    auto const s = MakeSignature<M, T>(i % 12 / 3, i);
    return Copy(s.id, s.map.template Forget<OrthogonalMap>()) *
           Copy(p.id, p.map.template Forget<OrthogonalMap>());
  };
  return i < 12 ? via.template operator()<Handedness::Right>()
                : via.template operator()<Handedness::Left>();
}

// Dispatches on handednesses.
template<typename Fn>
void WithHandedness(int const bits, Fn const& fn) {
  if (bits == 0) {
    fn.template operator()<Handedness::Right>();
  } else {
    fn.template operator()<Handedness::Left>();
  }
}

void Permutations(int const f, int const t, int const g, int const i,
                  int const j) {
  WithHandedness(f, [&]<Handedness hf>() {
    WithHandedness(t, [&]<Handedness ht>() {
      WithHandedness(g, [&]<Handedness hg>() {
        auto const a = MakePermutation<From<hf>, Through<ht>>(i);
        auto const b = MakePermutation<Through<ht>, To<hg>>(j);
        auto const c = b * a;
        Name(a);
        Name(c);
        Everything(a);
        Everything(c);
        Forget(a);
        Forget(c);
        Inverse(a) * Inverse(b);
        if constexpr (hf == ht) {
          Copy(a.id, a.map.template Forget<Rotation>());
          Make("identity", "",
               Permutation<From<hf>, Through<ht>>::Identity());
        }
      });
    });
  });
}

void Signatures(int const f, int const t, int const g, int const i,
                int const j) {
  WithHandedness(f, [&]<Handedness hf>() {
    WithHandedness(t, [&]<Handedness ht>() {
      WithHandedness(g, [&]<Handedness hg>() {
        for (int how = 0; how < 3; ++how) {
          auto const a = MakeSignature<From<hf>, Through<ht>>(i, how);
          auto const b = MakeSignature<Through<ht>, To<hg>>(j, how);
          auto const c = b * a;
          Everything(a);
          Everything(c);
          Forget(a);
          Forget(c);
          Inverse(a) * Inverse(b);
          if constexpr (hf == ht) {
            Copy(a.id, a.map.template Forget<Rotation>());
            Make("identity", "",
                 Signature<From<hf>, Through<ht>>::Identity());
          } else {
            Make("inversion", "",
                 Signature<From<hf>, Through<ht>>::CentralInversion());
          }
        }
      });
    });
  });
}

// An orthogonal map, by its index between 0 and 23, other maps and motions.
void Orthogonals(int const f, int const t, int const g, int const i,
                 int const j, verif::Rng& rng) {
  auto const vector = [&](int const n) {
    return V{rng(-n, n), rng(-n, n), rng(-n, n)};
  };
  auto const affine = [&](auto const& linear, V const& from, V const& to) {
    using M = std::decay_t<decltype(linear.map)>;
    using F = typename Frames<M>::From;
    using T = typename Frames<M>::To;
    using FV = Vector<Length, F>;
    using TV = Vector<Length, T>;
    return std::pair(FV(R3(from) * Metre) + F::origin,
                     TV(R3(to) * Metre) + T::origin);
  };
  auto const multiple = [&]() {
    V v = vector(3);
    for (auto& x : v) {
      x *= 64;
    }
    return v;
  };
  auto const observe_points = [&](int const id, auto const& map,
                                  auto const frame) {
    using F = typename decltype(frame)::type;
    std::string text;
    for (V const& v : {V{0, 0, 0}, V{64, 0, 0}, V{64, -128, 192}}) {
      auto const image = map(F::origin + Displacement<F>(R3(v) * Metre));
      using T = typename Frames<std::decay_t<decltype(
          map.linear_map())>>::To;
      text += (text.empty() ? "[[" : ",[") + J(v).text + "," +
              J(Ints((image - T::origin).coordinates() / Metre)).text + "]";
    }
    J io;
    io.text = text + "]";
    Ev("pos", {{"id", id}, {"io", io}});
  };
  auto const observe_dofs = [&](int const id, auto const& motion,
                                auto const from, auto const to) {
    using F = typename decltype(from)::type;
    using T = typename decltype(to)::type;
    std::string text;
    for (auto const& [q, v] : {std::pair(V{0, 0, 0}, V{0, 0, 0}),
                               std::pair(V{1, 0, 0}, V{0, 1, 0}),
                               std::pair(V{5, -7, 3}, V{-2, 11, 13})}) {
      DegreesOfFreedom<F> const dof(
          F::origin + Displacement<F>(R3(q) * Metre),
          Velocity<F>(R3(v) * (Metre / Second)));
      DegreesOfFreedom<T> const image = motion(dof);
      text += (text.empty() ? "[[" : ",[") + ("[" + J(q).text) + "," +
              J(v).text + "],[" +
              J(Ints((image.position() - T::origin).coordinates() / Metre))
                  .text +
              "," + J(Ints(image.velocity().coordinates() / (Metre / Second)))
                        .text +
              "]]";
    }
    J io;
    io.text = text + "]";
    Ev("dof", {{"id", id}, {"io", io}});
    Ev("arrival",
       {{"id", id},
        {"w", Ints(motion.template angular_velocity_of<T>().coordinates() /
                   (Radian / Second))},
        {"u", Ints(motion.template velocity_of_origin_of<T>().coordinates() /
                   (Metre / Second))}});
    Ev("departure",
       {{"id", id},
        {"w", Ints(motion.template angular_velocity_of<F>().coordinates() /
                   (Radian / Second))},
        {"u", Ints(motion.template velocity_of_origin_of<F>().coordinates() /
                   (Metre / Second))}});
  };
  WithHandedness(f, [&]<Handedness hf>() {
    WithHandedness(t, [&]<Handedness ht>() {
      WithHandedness(g, [&]<Handedness hg>() {
        using F = From<hf>;
        using T = Through<ht>;
        using G = To<hg>;
        auto const a = MakeOrthogonal<F, T>(i);
        auto const b = MakeOrthogonal<T, G>(j);
        auto const c = b * a;
        if (rng(8) == 0) {
          Everything(c);
        }
        auto const make = [&]<typename X, typename Y>(
                              char const* const e, std::string const& fields,
                              auto const& map, std::type_identity<X>,
                              std::type_identity<Y>) {
          int const id = registry->Next();
          registry->Raw(e, id, fields);
          observe_points(id, map, std::type_identity<X>());
          return std::pair(id, map);
        };
        // Similarities.
        if (rng(4) == 0) {
          auto const conformal = [&]<typename X, typename Y>(
                                     Map<OrthogonalMap<X, Y>> const& o) {
            int const k = rng(-2, 2);
            Homothecy<double, X, X> const homothecy(std::exp2(k));
            auto const h = Make("homothecy", Field("k", k), homothecy);
            Inverse(Inverse(h));
            auto const ch = Copy(h.id, h.map.template Forget<ConformalMap>());
            auto const co = Copy(o.id, o.map.template Forget<ConformalMap>());
            return co * ch;
          };
          auto const ca = conformal(a);
          auto const cb = conformal(b);
          auto const cc = cb * ca;
          Everything(cc);
          Copy(Inverse(ca).id, ca.map.Inverse());
          V const p[] = {multiple(), multiple(), multiple(), multiple()};
          auto const [fa, ta] = affine(ca, p[0], p[1]);
          auto const [fb, tb] = affine(cb, p[2], p[3]);
          auto const sa = make("affine",
               Field("lin", ca.id) + "," + Field("f", p[0]) + "," +
                   Field("t", p[1]),
               Similarity<F, T>(fa, ta, ca.map), std::type_identity<F>(),
               std::type_identity<T>());
          auto const sb = make("affine",
               Field("lin", cb.id) + "," + Field("f", p[2]) + "," +
                   Field("t", p[3]),
               Similarity<T, G>(fb, tb, cb.map), std::type_identity<T>(),
               std::type_identity<G>());
          auto const sc = make("compose",
               Field("l", sb.first) + "," + Field("r", sa.first),
               sb.second * sa.second, std::type_identity<F>(),
               std::type_identity<G>());
          make("inverse", Field("a", sc.first), sc.second.Inverse(),
               std::type_identity<G>(), std::type_identity<F>());
        }
        // Rigid transformations.
        V const p[] = {vector(9), vector(9), vector(9), vector(9)};
        auto const [fa, ta] = affine(a, p[0], p[1]);
        auto const [fb, tb] = affine(b, p[2], p[3]);
        auto const ra = make("affine",
             Field("lin", a.id) + "," + Field("f", p[0]) + "," +
                 Field("t", p[1]),
             RigidTransformation<F, T>(fa, ta, a.map),
             std::type_identity<F>(), std::type_identity<T>());
        auto const rb = make("affine",
             Field("lin", b.id) + "," + Field("f", p[2]) + "," +
                 Field("t", p[3]),
             RigidTransformation<T, G>(fb, tb, b.map),
             std::type_identity<T>(), std::type_identity<G>());
        auto const rc = make("compose",
             Field("l", rb.first) + "," + Field("r", ra.first),
             rb.second * ra.second, std::type_identity<F>(),
             std::type_identity<G>());
        make("inverse", Field("a", rc.first), rc.second.Inverse(),
             std::type_identity<G>(), std::type_identity<F>());
        Make("linear", Field("a", rc.first), rc.second.linear_map());
        {
          serialization::AffineMap message;
          rc.second.WriteToMessage(&message);
          make("copy", Field("a", rc.first),
               RigidTransformation<F, G>::ReadFromMessage(message),
               std::type_identity<F>(), std::type_identity<G>());
          make("copy", Field("a", rc.first),
               rc.second.template Forget<Similarity>(),
               std::type_identity<F>(), std::type_identity<G>());
        }
        // Rigid motions.
        auto const motion = [&]<typename X, typename Y>(
                                char const* const e, std::string const& fields,
                                RigidMotion<X, Y> const& map) {
          int const id = registry->Next();
          registry->Raw(e, id, fields);
          observe_dofs(id, map, std::type_identity<X>(),
                       std::type_identity<Y>());
          return Map<RigidMotion<X, Y>>{id, map};
        };
        V const w[] = {vector(3), vector(3), vector(3), vector(3)};
        auto const ma = motion("motion",
             Field("a", ra.first) + "," + Field("w", w[0]) + "," +
                 Field("u", w[1]),
             RigidMotion<F, T>(
                 ra.second, AngularVelocity<F>(R3(w[0]) * (Radian / Second)),
                 Velocity<F>(R3(w[1]) * (Metre / Second))));
        auto const mb = motion("motion2",
             Field("a", rb.first) + "," + Field("w", w[2]) + "," +
                 Field("u", w[3]),
             RigidMotion<T, G>(
                 rb.second, AngularVelocity<G>(R3(w[2]) * (Radian / Second)),
                 Velocity<G>(R3(w[3]) * (Metre / Second))));
        auto const mc = motion("compose",
             Field("l", mb.id) + "," + Field("r", ma.id), mb.map * ma.map);
        motion("inverse", Field("a", mb.id), mb.map.Inverse());
        motion("inverse", Field("a", mc.id), mc.map.Inverse());
        serialization::RigidMotion message;
        mc.map.WriteToMessage(&message);
        motion("copy", Field("a", mc.id),
               RigidMotion<F, G>::ReadFromMessage(message));
        if constexpr (hf != ht) {
          // A non-rotating motion is given by the motion of an origin.
          DegreesOfFreedom<T> const dof(
              T::origin + Displacement<T>(R3(p[0]) * Metre),
              Velocity<T>(R3(w[0]) * (Metre / Second)));
          auto const i = Make("perm", Field("name", "XZY"),
                              Permutation<F, T>(OddPermutation::XZY)
                                  .template Forget<OrthogonalMap>());
          auto const r = make("affine",
               Field("lin", i.id) + "," + Field("f", V{0, 0, 0}) + "," +
                   Field("t", p[0]),
               RigidTransformation<F, T>(
                   F::origin, T::origin + Displacement<T>(R3(p[0]) * Metre),
                   i.map),
               std::type_identity<F>(), std::type_identity<T>());
          motion("motion2",
                 Field("a", r.first) + "," + Field("w", V{0, 0, 0}) + "," +
                     Field("u", w[0]),
                 RigidMotion<F, T>::MakeNonRotatingMotion(dof));
        }
      });
    });
  });
}

double Twelfths(Angle const& angle) {
  return angle / (π / 6 * Radian);
}

using FR = From<Handedness::Right>;
using TR = Through<Handedness::Right>;

void Properties(Map<Rotation<FR, FR>> const& a) {
  auto const n = Int(Twelfths(a.map.RotationAngle()));
  Ev("angle", {{"id", a.id}, {"n", n}});
  if (n % 12 != 0) {
    auto const axis = a.map.RotationAxis().coordinates();
    V signs;
    for (double const x : {axis.x, axis.y, axis.z}) {
      signs.push_back(std::abs(x) < 1e-6 ? 0 : x > 0 ? 1 : -1);
    }
    Ev("axis", {{"id", a.id}, {"d", signs}, {"n", n}});
  }
}

std::vector<std::pair<V, std::vector<int>>> const& Turns() {
  static auto const turns = []() {
    std::vector<std::pair<V, std::vector<int>>> result;
    for (int x = -1; x <= 1; ++x) {
      for (int y = -1; y <= 1; ++y) {
        for (int z = -1; z <= 1; ++z) {
          switch (std::abs(x) + std::abs(y) + std::abs(z)) {
            case 0: break;
            case 1:
              result.emplace_back(V{x, y, z},
                                  std::vector{-9, -3, 0, 3, 6, 9, 12, 15});
              break;
            case 2:
              result.emplace_back(V{x, y, z}, std::vector{-6, 0, 6, 12});
              break;
            case 3:
              result.emplace_back(V{x, y, z}, std::vector{-8, -4, 0, 4, 8});
              break;
          }
        }
      }
    }
    return result;
  }();
  return turns;
}

// The rotations defined by an angle and an axis.
void AxisAngle(int const i) {
  auto const& [d, ns] = Turns()[i];
  auto const fields = [&](char const* const frame, int const n) {
    return Field("d", d) + "," + Field("n", n) + "," + Field("frame", frame);
  };
  for (int const n : ns) {
    Angle const angle = n * π / 6 * Radian;
    auto const active =
        Make("turn", fields("active", n),
             Rotation<FR, FR>(angle, Bivector<double, FR>(R3(d) * 3)));
    Properties(active);
    Everything(active);
    Forget(active);
    Make("turn", fields("active", n),
         Exp(Bivector<Angle, FR>(R3(d) / R3(d).Norm() * angle)));
    auto const to =
        Make("turn", fields("to", n),
             Rotation<FR, TR>(angle, Bivector<Length, FR>(R3(d) * Metre),
                              DefinesFrame<TR>()));
    auto const from =
        Make("turn", fields("from", n),
             Rotation<TR, FR>(angle, Bivector<double, FR>(R3(d)),
                              DefinesFrame<TR>()));
    Properties(from * to);
    auto const composition = from * to * active;
    Properties(composition);
    Everything(to);
    Properties(active * active);
  }
}

// The rotations defined by three angles.
template<typename A>
void Angles(A const axes, V const& indices, int const i, int const j,
            int const k) {
  Angle const α = i * π / 2 * Radian;
  Angle const β = j * π / 2 * Radian;
  Angle const γ = k * π / 2 * Radian;
  auto const fields = [&](char const* const frame) {
    return Field("axes", indices) + "," + Field("n", V{i, j, k}) + "," +
           Field("frame", frame);
  };
  Make("angles", fields("to"),
       Rotation<FR, TR>(α, β, γ, axes, DefinesFrame<TR>()));
  Make("angles", fields("from"),
       Rotation<TR, FR>(α, β, γ, axes, DefinesFrame<TR>()));
}

// Rotations given by the images of the axes.
void Bases(int const i) {
  V const p[] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1},
                 {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
  V const& q = p[i / 4];
  int const x = i & 1 ? -1 : 1;
  int const y = i & 2 ? -1 : 1;
  int const z = (i / 4 < 3 ? 1 : -1) * x * y;
  std::vector<V> b(3, V(3, 0));
  b[0][q[0]] = x;
  b[1][q[1]] = y;
  b[2][q[2]] = z;
  J j;
  j.text = "[" + J(b[0]).text + "," + J(b[1]).text + "," + J(b[2]).text + "]";
  auto const to = Field("b", j) + "," + Field("frame", "to");
  auto const from = Field("b", j) + "," + Field("frame", "from");
  using FV = Vector<double, FR>;
  using FB = Bivector<double, FR>;
  Make("basis", to,
       Rotation<FR, TR>(FB(R3(b[0])), FV(R3(b[1])), FV(R3(b[2]))));
  Make("basis", to,
       Rotation<FR, TR>(FV(R3(b[0])), FV(R3(b[1])), FB(R3(b[2]))));
  Make("basis", to,
       Rotation<FR, TR>(FV(R3(b[0])), FB(R3(b[1])), FV(R3(b[2]))));
  auto const r =
      Make("basis", from,
           Rotation<TR, FR>(FB(R3(b[0])), FV(R3(b[1])), FV(R3(b[2]))));
  Make("basis", from,
       Rotation<TR, FR>(FV(R3(b[0])), FB(R3(b[1])), FV(R3(b[2]))));
  Everything(r);
  Forget(r);
  // All the compositions by another rotation.
  for (int n = 1; n <= 3; ++n) {
    auto const turn =
        Make("turn",
             Field("d", V{0, 0, 1}) + "," + Field("n", 3 * n) + "," +
                 Field("frame", "active"),
             Rotation<FR, FR>(n * π / 2 * Radian,
                              Bivector<double, FR>({0, 0, 1})));
    Everything(turn * r);
  }
  Make("identity", "", Rotation<FR, TR>::Identity());
  auto const identity = Make("identity", "", Identity<TR, TR>());
  Everything(identity);
  Copy(identity.id, identity.map.Forget<Rotation>());
  Copy(identity.id, identity.map.Forget<OrthogonalMap>());
  Copy(identity.id, identity.map.Forget<Permutation>());
  Copy(identity.id, identity.map.Forget<Signature>());
  auto const h = Make("homothecy", Field("k", 1),
                      Homothecy<double, TR, TR>(2.0));
  Inverse(Inverse(h));
  h * Make("homothecy", Field("k", 2), Homothecy<double, TR, TR>(4.0));
  Make("identity", "", Homothecy<double, TR, TR>::Identity());
  Make("identity", "", ConformalMap<double, TR, TR>::Identity());
}

void Signs() {
  auto const sign = [](int const x) {
    return x > 0 ? Sign::Positive() : Sign::Negative();
  };
  for (double const x : {1.0, -1.0, 3.5, -1e-300, 1e300, 5e-324}) {
    Ev("sign", {{"x", x > 0 ? 1 : -1}, {"r", static_cast<int>(Sign(x))}});
    Ev("sign", {{"x", x > 0 ? 1 : -1},
                {"r", static_cast<int>(Sign(x * Metre))}});
  }
  for (int const x : {1, -1, 2, -2, 2147483647, -2147483647}) {
    Ev("sign", {{"x", x > 0 ? 1 : -1},
                {"r", static_cast<int>(Sign::OfNonZero(x))}});
  }
  for (int const x : {1, -1}) {
    Ev("sign", {{"x", x}, {"r", sign(x).is_positive() ? 1 : -1}});
    Ev("sign", {{"x", x}, {"r", sign(x).is_negative() ? -1 : 1}});
    Ev("sign", {{"x", -x}, {"r", static_cast<int>(-sign(x))}});
    Ev("sign", {{"x", x}, {"r", static_cast<int>(+sign(x))}});
    serialization::Sign message;
    sign(x).WriteToMessage(&message);
    Ev("sign",
       {{"x", x}, {"r", static_cast<int>(Sign::ReadFromMessage(message))}});
    for (int const y : {1, -1}) {
      Ev("product", {{"x", x}, {"y", y},
                     {"r", static_cast<int>(sign(x) * sign(y))}});
      Ev("equal", {{"x", x}, {"y", y}, {"r", sign(x) == sign(y)}});
      Ev("equal", {{"x", x}, {"y", y}, {"r", !(sign(x) != sign(y))}});
    }
    for (int const y : {7, -7}) {
      Ev("product", {{"x", x}, {"y", y}, {"r", Int(sign(x) * double(y))}});
      Ev("product", {{"x", x}, {"y", y},
                     {"r", Int((sign(x) * (y * Metre)) / Metre)}});
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  using Scenario = std::function<void(verif::Rng&)>;
  std::vector<Scenario> scenarios;
  scenarios.push_back([](verif::Rng&) { Signs(); });
  for (int h = 0; h < 8; ++h) {
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        scenarios.push_back([=](verif::Rng&) {
          Permutations(h & 1, (h >> 1) & 1, h >> 2, i, j);
        });
      }
    }
    for (int i = 0; i < 4; ++i) {
      for (int j = 0; j < 4; ++j) {
        scenarios.push_back([=](verif::Rng&) {
          Signatures(h & 1, (h >> 1) & 1, h >> 2, i, j);
        });
      }
    }
  }
  for (int i = 0; i < Turns().size(); ++i) {
    scenarios.push_back([=](verif::Rng&) { AxisAngle(i); });
  }
  for (int i = 0; i < 64; ++i) {
    scenarios.push_back([=](verif::Rng&) {
      int const a = i % 4 - 1;
      int const b = i / 4 % 4;
      int const c = i / 16 - 2;
      using E = EulerAngles;
      using C = CardanoAngles;
      Angles(E::ZXZ, {3, 1, 3}, a, b, c);
      Angles(E::XYX, {1, 2, 1}, a, b, c);
      Angles(E::YZY, {2, 3, 2}, a, b, c);
      Angles(E::ZYZ, {3, 2, 3}, a, b, c);
      Angles(E::XZX, {1, 3, 1}, a, b, c);
      Angles(E::YXY, {2, 1, 2}, a, b, c);
      Angles(C::XYZ, {1, 2, 3}, a, b, c);
      Angles(C::YZX, {2, 3, 1}, a, b, c);
      Angles(C::ZXY, {3, 1, 2}, a, b, c);
      Angles(C::XZY, {1, 3, 2}, a, b, c);
      Angles(C::ZYX, {3, 2, 1}, a, b, c);
      Angles(C::YXZ, {2, 1, 3}, a, b, c);
    });
  }
  for (int i = 0; i < 24; ++i) {
    scenarios.push_back([=](verif::Rng&) { Bases(i); });
  }
  int const fixed = scenarios.size();
  return verif::SeqMain(
      argc, argv, [&](std::int64_t const index, verif::Rng& rng) {
        Registry r;
        registry = &r;
        if (index < fixed) {
          scenarios[index](rng);
        } else {
          // The 4608 pairs of orthogonal maps, in a scattered order.
          int const n = (index - fixed) * 1009 % 4608;
          Orthogonals(n & 1, (n >> 1) & 1, (n >> 2) & 1, (n >> 3) % 24,
                      (n >> 3) / 24, rng);
        }
      });
}
