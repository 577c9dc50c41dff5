// C12: random circuits, GWC openings.
#include "plonk_rand.h"
using namespace vp;
namespace {
using PCS = GWCExtension<math::bn254::BN254Curve, 127, 1023, math::bn254::G1AffinePoint>;
template <lookup::Type L>
using PS = halo2::ProvingScheme<halo2::Vendor::kScroll, L, PCS>;
}  // namespace
SIM_SCENARIO("C12", plonk_random_gwc, sim::kOmp | sim::kSameOutcome, 3, 2) {
  if (sim::Chance(1, 2)) RunRand<PS<lookup::Type::kHalo2>, V1FloorPlanner>("halo2 v1");
  else RunRand<PS<lookup::Type::kLogDerivativeHalo2>, SimpleFloorPlanner>("log simple");
}
