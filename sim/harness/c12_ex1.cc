#include "c12_examples.h"
#include "tachyon/zk/plonk/examples/fibonacci/fibonacci1_circuit.h"
#include "tachyon/zk/plonk/examples/fibonacci/fibonacci1_circuit_test_data.h"
#include "tachyon/zk/plonk/examples/fibonacci/fibonacci2_circuit.h"
#include "tachyon/zk/plonk/examples/fibonacci/fibonacci2_circuit_test_data.h"
#include "tachyon/zk/plonk/examples/fibonacci/fibonacci3_circuit.h"
#include "tachyon/zk/plonk/examples/fibonacci/fibonacci3_circuit_test_data.h"
#include "tachyon/zk/plonk/examples/simple_circuit.h"
#include "tachyon/zk/plonk/examples/simple_circuit_test_data.h"
#include "tachyon/zk/plonk/examples/simple_lookup_circuit.h"
#include "tachyon/zk/plonk/examples/simple_lookup_circuit_test_data.h"
using namespace vp;
namespace {
template <template <typename> class FP>
void Simple(const char* what) {
  using Circ = SimpleCircuit<F, FP>;
  using PS = BN254SHPlonkHalo2;
  F constant = vu::Elem<F>();
  RunExample<Circ, PS, SimpleTestData<Circ, PS>>(what, [&](auto& job, size_t, bool wrong) -> const char* {
    F a = vu::Elem<F>(), b = vu::Elem<F>(), c = constant * a.Square() * b.Square();
    if (wrong) c += vu::NonZero<F>();
    job.circuits.emplace_back(constant, a, b);
    job.instances.push_back({typename Job<Circ, PS>::Evals(std::vector<F>{c})});
    return wrong ? "the product is wrong" : nullptr;
  });
}
template <template <typename> class FP>
void Lookup(const char* what) {
  using Circ = SimpleLookupCircuit<F, 3, FP>;
  using PS = BN254SHPlonkHalo2;
  uint32_t k = sim::Range(0, 4);
  RunExample<Circ, PS, SimpleLookupTestData<Circ, PS>>(what, [&](auto& job, size_t, bool) -> const char* {
    job.n = 32;
    job.circuits.emplace_back(k);
    job.instances.push_back({});
    return nullptr;
  });
}
template <typename Circ, typename TD>
void Fib(const char* what) {
  using PS = BN254SHPlonkHalo2;
  RunExample<Circ, PS, TD>(what, [&](auto& job, size_t, bool wrong) -> const char* {
    F a = vu::Elem<F>(), b = vu::Elem<F>();
    std::vector<F> in = {a, b};
    for (int i = 2; i < 10; ++i) { F c = a + b; a = b; b = c; }
    in.push_back(wrong ? b + vu::NonZero<F>() : b);
    job.circuits.emplace_back();
    job.instances.push_back({typename Job<Circ, PS>::Evals(in)});
    return wrong ? "the last number is wrong" : nullptr;
  });
}
template <template <typename> class FP>
void Fib3(const char* what) {
  using Circ = Fibonacci3Circuit<F, FP>;
  using PS = BN254SHPlonkHalo2;
  RunExample<Circ, PS, Fibonacci3TestData<Circ, PS>>(what, [&](auto& job, size_t, bool) -> const char* {
    F a = vu::Elem<F>(), b = sim::Chance(1, 3) ? a : vu::Elem<F>(), c = vu::Elem<F>();
    job.circuits.emplace_back(a, b, c);
    job.instances.push_back({});
    return nullptr;
  });
}
}  // namespace
SIM_SCENARIO("C12", plonk_examples_1, sim::kOmp | sim::kSameOutcome, 2, 2) {
  switch (sim::Below(8)) {
    case 0: return Simple<SimpleFloorPlanner>("simple");
    case 1: return Simple<V1FloorPlanner>("simple v1");
    case 2: return Lookup<SimpleFloorPlanner>("lookup");
    case 3: return Lookup<V1FloorPlanner>("lookup v1");
    case 4: { using C = Fibonacci1Circuit<F, SimpleFloorPlanner>; return Fib<C, Fibonacci1TestData<C, BN254SHPlonkHalo2>>("fib1"); }
    case 5: { using C = Fibonacci1Circuit<F, V1FloorPlanner>; return Fib<C, Fibonacci1TestData<C, BN254SHPlonkHalo2>>("fib1 v1"); }
    case 6: { using C = Fibonacci2Circuit<F, V1FloorPlanner>; return Fib<C, Fibonacci2TestData<C, BN254SHPlonkHalo2>>("fib2 v1"); }
    default: return Fib3<SimpleFloorPlanner>("fib3");
  }
}
