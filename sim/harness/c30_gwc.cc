// C30: the C interface with GWC openings.
#include "c30.h"
using namespace vp;
namespace cbn = tachyon::c::zk::plonk::halo2::bn254;
SIM_WARMUP(c30_gwc) { Init(); }
SIM_SCENARIO("C30", c_gwc, sim::kOmp | sim::kSameOutcome, 3, 2) {
  if (sim::Chance(1, 2)) { Api<cbn::PSEGWC, V1FloorPlanner> a; a.pcs_type = 0; a.Run("pse gwc"); }
  else { Api<cbn::ScrollGWC, SimpleFloorPlanner> a; a.pcs_type = 0; a.Run("scroll gwc"); }
}
