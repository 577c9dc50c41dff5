// C12: the example circuits of the repository; the recorded proofs are those Halo2 makes.
#include "plonk.h"
#include "tachyon/zk/plonk/examples/circuit_test_type_traits.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"

namespace vp {
using F = BN254SHPlonk::Field;
// |vary| fills in the circuits and instances of a random case, or breaks it and says how.
template <typename Circ, typename PS, typename TD, typename Vary>
void RunExample(const char* what, Vary vary, bool recorded_legacy = true) {
  Job<Circ, PS> job;
  job.n = TD::kN;
  if (sim::Chance(1, 3)) {
    job.legacy = recorded_legacy;
    job.tau = F(2);
    memcpy(job.seed, halo2::kXORShiftSeed, 16);
    job.circuits = TD::Get2Circuits();
    auto in = TD::GetInstanceColumns();
    job.instances = {in, in};
    job.split_keys = sim::Chance(1, 2);
    sim::Describe("%s recorded", what);
    std::vector<uint8_t> golden(std::begin(TD::kProof), std::end(TD::kProof));
    Honest(job, &golden);
    return;
  }
  job.n = TD::kN == 32 ? 32 : sim::Chance(1, 2) ? 16 : 32;
  job.RandomSetup();
  std::string broken;
  size_t num = sim::Chance(1, 2) ? 1 : sim::Range(2, 3);
  bool want_broken = sim::Chance(1, 3);
  for (size_t i = 0; i < num; ++i) {
    const char* b = vary(job, i, want_broken && i + 1 == num);
    if (b) broken = b;
  }
  sim::Describe("%s n=%zu tr=%d circuits=%zu %s", what, job.n, static_cast<int>(job.tr), num, broken.c_str());
  if (broken.empty()) Honest(job); else Dishonest(job, broken.c_str());
}
}  // namespace vp
