#include "c12_examples.h"
#include "tachyon/zk/plonk/examples/multi_lookup_circuit.h"
#include "tachyon/zk/plonk/examples/multi_lookup_circuit_test_data.h"
#include "tachyon/zk/plonk/examples/shuffle_api_circuit.h"
#include "tachyon/zk/plonk/examples/shuffle_api_circuit_test_data.h"
#include "tachyon/zk/plonk/examples/shuffle_circuit.h"
#include "tachyon/zk/plonk/examples/shuffle_circuit_test_data.h"
using namespace vp;
namespace {
template <typename PS>
void Multi(const char* what) {
  using Circ = MultiLookupCircuit<F, SimpleFloorPlanner>;
  F a = vu::Elem<F>();
  RunExample<Circ, PS, MultiLookupTestData<Circ, PS>>(what, [&](auto& job, size_t, bool wrong) -> const char* {
    // The table is part of the circuit, so every circuit has the same |a|.
    std::vector<F> table = {F(2), a, a, F::Zero()};
    F mine = a;
    if (wrong) mine += vu::NonZero<F>();
    wrong = wrong && mine != F(2) && mine != F::Zero();
    job.circuits.emplace_back(wrong ? mine : a, table);
    job.instances.push_back({typename Job<Circ, PS>::Evals(std::vector<F>{F(2)})});
    return wrong ? "a value that is not in the table" : nullptr;
  });
}
std::vector<int> Perm(int n) {
  std::vector<int> at(n);
  for (int i = 0; i < n; ++i) at[i] = i;
  for (int i = n; i > 1; --i) std::swap(at[i - 1], at[sim::Below(i)]);
  return at;
}
constexpr size_t kW = 2;
constexpr RowIndex kH = 8;
template <template <typename> class FP>
void Shuffled(const char* what) {
  using PS = BN254SHPlonkHalo2;
  using Circ = ShuffleCircuit<F, kW, kH, FP>;
  RunExample<Circ, PS, ShuffleTestData<Circ, PS>>(what, [&](auto& job, size_t, bool wrong) -> const char* {
    job.n = 32;
    std::vector<std::vector<F>> o(kW, std::vector<F>(kH)), s = o;
    auto at = Perm(kH);
    for (size_t w = 0; w < kW; ++w)
      for (size_t h = 0; h < kH; ++h) o[w][h] = s[w][at[h]] = vu::Elem<F>();
    if (wrong) s[sim::Below(kW)][sim::Below(kH)] += vu::NonZero<F>();
    job.circuits.emplace_back(std::move(o), std::move(s));
    job.instances.push_back({});
    return wrong ? "not a permutation" : nullptr;
  });
}
template <template <typename> class FP>
void Api(const char* what) {
  using PS = BN254SHPlonkLogDerivativeHalo2;
  using Circ = ShuffleAPICircuit<F, FP>;
  size_t n = sim::Range(1, 4);
  std::vector<F> in1 = vu::Vec<F>(n);
  RunExample<Circ, PS, ShuffleAPICircuitTestData<Circ, PS>>(what, [&](auto& job, size_t, bool wrong) -> const char* {
    std::vector<Value<F>> in0, s0(n), s1(n);
    auto at = Perm(n);
    size_t bad = sim::Below(n);
    for (size_t i = 0; i < n; ++i) {
      F x = vu::Elem<F>();
      in0.push_back(Value<F>::Known(x));
      s0[at[i]] = Value<F>::Known(x);
      s1[at[i]] = Value<F>::Known(in1[i] + (wrong && i == bad ? vu::NonZero<F>() : F::Zero()));
    }
    auto copy = in1;
    job.circuits.emplace_back(std::move(in0), std::move(copy), std::move(s0), std::move(s1));
    job.instances.push_back({});
    return wrong ? "not a permutation" : nullptr;
  }, false);
}
}  // namespace
SIM_SCENARIO("C12", plonk_examples_2, sim::kOmp | sim::kSameOutcome, 2, 2) {
  switch (sim::Below(6)) {
    case 0: return Multi<BN254SHPlonkLogDerivativeHalo2>("multi lookup");
    case 1: return Multi<BN254GWCLogDerivativeHalo2>("multi lookup gwc");
    case 2: return Shuffled<SimpleFloorPlanner>("shuffle");
    case 3: return Shuffled<V1FloorPlanner>("shuffle v1");
    case 4: return Api<SimpleFloorPlanner>("shuffle api");
    default: return Api<V1FloorPlanner>("shuffle api v1");
  }
}
