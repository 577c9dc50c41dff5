// C30: the C interface with SHPlonk openings.
#include "c30.h"
using namespace vp;
namespace cbn = tachyon::c::zk::plonk::halo2::bn254;
SIM_WARMUP(c30_shplonk) { Init(); }
SIM_SCENARIO("C30", c_shplonk, sim::kOmp | sim::kSameOutcome, 3, 2) {
  if (sim::Chance(1, 2)) { Api<cbn::PSESHPlonk, V1FloorPlanner> a; a.pcs_type = 1; a.Run("pse shplonk"); }
  else { Api<cbn::ScrollSHPlonk, SimpleFloorPlanner> a; a.pcs_type = 1; a.Run("scroll shplonk"); }
}
