// C12: random circuits, SHPlonk openings.
#include "plonk_rand.h"
using namespace vp;
namespace {
using PCS = SHPlonkExtension<math::bn254::BN254Curve, 127, 1023, math::bn254::G1AffinePoint>;
template <lookup::Type L>
using PS = halo2::ProvingScheme<halo2::Vendor::kScroll, L, PCS>;
SIM_WARMUP(c12_rand_shplonk) { Init(); }
}  // namespace
SIM_SCENARIO("C12", plonk_random_shplonk, sim::kOmp | sim::kSameOutcome, 3, 2) {
  if (sim::Chance(1, 2)) RunRand<PS<lookup::Type::kHalo2>, SimpleFloorPlanner>("halo2 simple");
  else RunRand<PS<lookup::Type::kLogDerivativeHalo2>, V1FloorPlanner>("log v1");
}
