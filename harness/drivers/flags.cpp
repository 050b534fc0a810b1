// Drives base/flags.
#include "base/flags.hpp"

#include "seq_driver.hpp"

using principia::base::_flags::Flags;
using verif::Ev;
using verif::J;

namespace {

void Run(std::int64_t const index, verif::Rng& rng) {
  std::vector<std::string> const names = {"zfp", "zf", "z", "", "Zfp", "q"};
  std::vector<std::string> const values = {"", "on", "off", "o", "0"};
  int const number_of_names = rng(1, names.size());
  int const number_of_values = rng(1, values.size());
  auto const name = [&]() { return names[rng(number_of_names)]; };
  auto const value = [&]() { return values[rng(number_of_values)]; };
  auto const observe = [&](std::string const& n) {
    auto const set = Flags::Values(n);
    Ev("values", {{"n", n},
                  {"vs", std::vector<std::string>(set.begin(), set.end())}});
    Ev("present", {{"n", n}, {"r", Flags::IsPresent(n)}});
    for (auto const& v : values) {
      Ev("presentv", {{"n", n}, {"v", v}, {"r", Flags::IsPresent(n, v)}});
    }
  };
  // The flags are global.
  Flags::Clear();
  Ev("clear");
  int const length = rng(1, 20);
  for (int k = 0; k < length; ++k) {
    switch (rng(8)) {
      case 0: case 1: case 2: case 3: {
        auto const n = name();
        auto const v = value();
        Flags::Set(n, v);
        Ev("set", {{"n", n}, {"v", v}});
        break;
      }
      case 4:
        if (rng.Chance(30)) {
          Flags::Clear();
          Ev("clear");
        }
        break;
      case 5: case 6: case 7:
        observe(name());
        break;
    }
  }
  for (auto const& n : names) {
    observe(n);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, Run);
}
