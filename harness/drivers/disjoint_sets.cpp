// Drives base/disjoint_sets with sequences of unions.
#include "base/disjoint_sets.hpp"

#include "seq_driver.hpp"

using verif::Ev;
using verif::J;

struct Element {
  explicit Element(int const id) : id(id) {}
  int const id;
  char node_storage[8];
  void* node = nullptr;
};

namespace principia {
namespace base {
namespace _disjoint_sets {
namespace internal {

template<>
class Subset<Element>::Properties final {
 public:
  explicit Properties(int const id) : ids({id}) {}
  void MergeWith(Properties& other) {
    ids.insert(ids.end(), other.ids.begin(), other.ids.end());
    other.ids.clear();
  }
  std::vector<int> ids;
};

}  // namespace internal
}  // namespace _disjoint_sets
}  // namespace base
}  // namespace principia

using principia::base::_disjoint_sets::Subset;
using principia::base::_not_null::not_null;

static std::vector<std::unique_ptr<Subset<Element>::Node>> nodes;

namespace principia {
namespace base {
namespace _disjoint_sets {
namespace internal {
template<>
not_null<Subset<Element>::Node*> Subset<Element>::Node::Get(Element& element) {
  return nodes[element.id].get();
}
}  // namespace internal
}  // namespace _disjoint_sets
}  // namespace base
}  // namespace principia

namespace {

std::vector<Element> Elements(int const n) {
  nodes.clear();
  std::vector<Element> elements;
  for (int i = 0; i < n; ++i) {
    nodes.push_back(std::make_unique<Subset<Element>::Node>());
    elements.emplace_back(i);
  }
  return elements;
}

void Reset(std::vector<Element>& elements, std::vector<int> const& order) {
  for (int const i : order) {
    auto subset = Subset<Element>::MakeSingleton(elements[i], i);
    Ev("single", {{"x", i}});
  }
}

void Unite(std::vector<Element>& elements, int const x, int const y) {
  auto const left = Subset<Element>::Find(elements[x]);
  auto const right = Subset<Element>::Find(elements[y]);
  auto const united = Subset<Element>::Unite(left, right);
  Ev("unite", {{"x", x}, {"y", y}, {"ids", united.properties().ids}});
}

// Unites subsets held by the client (with elements `x` and `y`), without any
// lookup that would compress the paths.
Subset<Element> UniteHeld(Subset<Element> const left,
                          Subset<Element> const right,
                          int const x,
                          int const y) {
  auto const united = Subset<Element>::Unite(left, right);
  Ev("unite", {{"x", x}, {"y", y}, {"ids", united.properties().ids}});
  return united;
}

void Find(std::vector<Element>& elements, int const x) {
  Ev("find",
     {{"x", x},
      {"ids", Subset<Element>::Find(elements[x]).mutable_properties().ids}});
}

void Same(std::vector<Element>& elements, int const x, int const y) {
  auto const left = Subset<Element>::Find(elements[x]);
  auto const right = Subset<Element>::Find(elements[y]);
  Ev("same", {{"x", x}, {"y", y}, {"eq", left == right}, {"ne", left != right}});
}

constexpr std::int64_t kExhaustive = 9 * 9 * 9 * 9;

// Builds deep forests by a tournament between held representatives.
void Tournament(verif::Rng& rng) {
  int const n = rng(6, 18);
  verif::Cfg({{"n", n}});
  auto elements = Elements(n);
  std::vector<std::pair<std::shared_ptr<Subset<Element> const>, int>> held;
  for (int i = 0; i < n; ++i) {
    held.emplace_back(std::make_shared<Subset<Element> const>(
                          Subset<Element>::MakeSingleton(elements[i], i)),
                      i);
    Ev("single", {{"x", i}});
  }
  bool const balanced = rng.Chance(70);
  int const finds = rng(3) == 0 ? 10 : 0;
  while (held.size() > 1) {
    if (held.size() == 2 && rng.Chance(20)) {
      break;
    }
    std::size_t const i = balanced ? 0 : rng(held.size());
    auto const a = held[i];
    held.erase(held.begin() + i);
    std::size_t const j = balanced ? 0 : rng(held.size());
    auto const b = held[j];
    held.erase(held.begin() + j);
    int const x = rng.Chance(50) ? a.second : b.second;
    held.emplace_back(std::make_shared<Subset<Element> const>(
                          UniteHeld(*a.first, *b.first, a.second, b.second)),
                      x);
    if (rng.Chance(finds)) {
      Find(elements, rng(n));
    }
  }
  int const first = rng(n);
  for (int k = 0; k < n; ++k) {
    Find(elements, (first + k) % n);
    Same(elements, rng(n), rng(n));
  }
  for (int x = 0; x < n; ++x) {
    Same(elements, x, rng(n));
  }
}

void Run(std::int64_t index, verif::Rng& rng) {
  if (index >= kExhaustive && index % 3 == 0) {
    return Tournament(rng);
  }
  int const n = index < kExhaustive ? 3 : rng(1, 9);
  verif::Cfg({{"n", n}});
  auto elements = Elements(n);
  std::vector<int> order;
  for (int i = 0; i < n; ++i) {
    order.insert(order.begin() + (index < kExhaustive ? i : rng(i + 1)), i);
  }
  Reset(elements, order);
  if (index < kExhaustive) {
    // All the sequences of 4 unions of 3 elements.
    for (int k = 0; k < 4; ++k) {
      int const pair = index % 9;
      index /= 9;
      Unite(elements, pair / 3, pair % 3);
    }
  } else {
    int const length = rng(1, 24);
    for (int k = 0; k < length; ++k) {
      switch (rng(9)) {
        case 0: case 1: case 2: case 3:
          Unite(elements, rng(n), rng(n));
          break;
        case 4: case 5:
          Find(elements, rng(n));
          break;
        case 6: case 7:
          Same(elements, rng(n), rng(n));
          break;
        case 8:
          if (rng.Chance(20)) {
            Reset(elements, order);
          }
          break;
      }
    }
  }
  for (int x = 0; x < n; ++x) {
    Find(elements, x);
    for (int y = 0; y < n; ++y) {
      Same(elements, x, y);
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, Run);
}
