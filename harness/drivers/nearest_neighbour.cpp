// Drives numerics/nearest_neighbour with points that have integer coordinates,
// often coincident, collinear, coplanar or symmetrical.
#include "numerics/nearest_neighbour.hpp"

#include <deque>
#include <set>

#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "seq_driver.hpp"

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::numerics::_nearest_neighbour;
using verif::Ev;
using verif::J;

namespace {

using World = Frame<struct WorldTag>;
using Point = Vector<double, World>;
using Tree = PrincipalComponentPartitioningTree<Point>;
using V = std::vector<int>;

struct Shape {
  int kind;
  int extent;
  V operator()(verif::Rng& rng) const {
    int const e = extent;
    switch (kind) {
      case 0:  // Anything.
        return {rng(-e, e), rng(-e, e), rng(-e, e)};
      case 1:  // In a plane.
        return {rng(-e, e), rng(-e, e), 0};
      case 2:  // On a line.
        return {rng(-e, e), 0, 0};
      case 3: {  // On a diagonal.
        int const x = rng(-e, e);
        return {x, x, x};
      }
      case 4:  // The vertices of a cube.
        return {rng(2) * e, rng(2) * e, rng(2) * e};
      case 5: {  // The vertices of an octahedron.
        V v = {0, 0, 0};
        v[rng(3)] = rng(2) ? e : -e;
        return v;
      }
      case 6: {  // A point, its opposite, or the origin.
        int const x = rng(-1, 1) * e;
        return {x, -x, 0};
      }
      case 7:  // Always the same.
        return {e, 0, -e};
      case 8:  // Another plane, far from the origin.
        return {1000 * e, rng(-e, e), rng(-e, e)};
      default: {  // Clusters.
        int const c = 100 * rng(-1, 1);
        return {c + rng(2), c + rng(2), rng(2)};
      }
    }
  }
};

void Run(std::int64_t const index, verif::Rng& rng) {
  Shape const shape{static_cast<int>(index % 10), rng(1, 4)};
  Shape const queries{rng(2) ? shape.kind : rng(10), rng(1, 5)};
  std::int64_t const per_leaf = index / 10 % 5 + 1;
  int const initial = rng(4) == 0 ? 0 : rng(25);
  std::deque<Point> storage;
  std::vector<not_null<Point const*>> pointers;
  auto const make = [&](V const& v) {
    storage.push_back(Point({double(v[0]), double(v[1]), double(v[2])}));
    return &storage.back();
  };
  std::string text = "[";
  for (int i = 0; i < initial; ++i) {
    V const v = shape(rng);
    pointers.push_back(make(v));
    text += (i == 0 ? "" : ",") + J(v).text;
  }
  J points;
  points.text = text + "]";
  Ev("new", {{"points", points}});
  Tree tree(pointers, per_leaf);
  int const operations = rng(5, 40);
  for (int i = 0; i < operations; ++i) {
    if (storage.size() < 40 && rng(3) == 0) {
      V const v = rng(4) ? shape(rng) : queries(rng);
      Ev("add", {{"p", v}});
      tree.Add(make(v));
    } else {
      V const q = queries(rng);
      std::set<int> reject;
      if (rng(2)) {
        int const percent = std::vector{20, 50, 90, 100}[rng(4)];
        for (int j = 0; j < storage.size(); ++j) {
          if (rng.Chance(percent)) {
            reject.insert(j + 1);
          }
        }
      }
      auto const index_of = [&](Point const* const p) {
        for (int j = 0; j < storage.size(); ++j) {
          if (&storage[j] == p) {
            return j + 1;
          }
        }
        return p == nullptr ? 0 : -1;
      };
      Tree::Filter filter;
      if (!reject.empty()) {
        filter = [&](Point const* const p) {
          return !reject.contains(index_of(p));
        };
      }
      Point const* const r = tree.FindNearestNeighbour(
          Point({double(q[0]), double(q[1]), double(q[2])}), filter);
      Ev("find", {{"q", q},
                  {"reject", std::vector<int>(reject.begin(), reject.end())},
                  {"r", index_of(r)}});
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, &Run);
}
