// Drives discrete trajectories with sequences of edits.
#include "trajectory_ops.hpp"

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, [](std::int64_t, verif::Rng& rng) {
    verif::TrajectoryDriver driver(rng);
    driver.Run(rng(4, 14));
  });
}
