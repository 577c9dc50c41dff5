"""Which binary decides which property, and what it is made of."""
SECONDS = {"quick": 25, "thorough": 600}
STUBS = ["OpenMP runtime (simulated, seeded)", "pthread scheduling and locks (simulated, seeded)",
         "heap (deterministic addresses, seeded garbage, checked accesses)", "clocks, sleeping, entropy (simulated)",
         "libc file calls (in-memory file system with seeded faults)"]
ASSUMPTIONS = ["interleavings are sequentially consistent: reorderings a weak memory model would add are not explored",
               "thread switches happen at instrumented memory accesses, synchronisation and system calls of the code compiled from /repo"]
BINARIES = {
    "c01": {"srcs": ["c01.cc"], "deps": ["//tachyon/base:parallelize", "//tachyon/base/containers:container_util"]},
    "c02": {"srcs": ["c02.cc"], "deps": ["//tachyon/math/base:rational_field", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/finite_fields/baby_bear:baby_bear", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/test:gf7"]},
    "c03": {"srcs": ["c03.cc"], "deps": ["//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/elliptic_curves/bn/bn254:g2", "//tachyon/math/elliptic_curves/short_weierstrass/test:sw_curve_config", "//tachyon/math/geometry:point_conversions"]},
    "files": {"srcs": ["files.cc", "files_more.cc"], "deps": ["//tachyon/base/files:bin_file", "//tachyon/base/files:file", "//tachyon/base/files:file_util", "//tachyon/base/files:memory_mapped_file", "//tachyon/base/files:scoped_temp_dir"]},
    "runtime": {"srcs": ["runtime.cc"], "deps": ["//tachyon/base/threading:platform_thread", "//tachyon/base/time:time", "//tachyon/base/time:time_delta_flag", "//tachyon/base/time:time_interval", "//tachyon/base/time:time_stamp", "//tachyon/device:allocator"], "copts": ["-fno-rtti"]},
    "c14": {"srcs": ["c14.cc"], "deps": ["//tachyon/math/matrix:matrix_operations", "//tachyon/math/matrix:matrix_utils", "//tachyon/math/matrix/sparse:sparse_matrix", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/koala_bear:koala_bear", "//tachyon/math/finite_fields/test:gf7"]},
    "c05": {"srcs": ["c05.cc"], "deps": ["//tachyon/math/matrix:matrix_utils", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/elliptic_curves/bls12/bls12_381:fr", "//tachyon/math/elliptic_curves/bn/bn384_small_two_adicity:fq", "//tachyon/math/finite_fields/baby_bear:baby_bear", "//tachyon/math/polynomials/univariate:mixed_radix_evaluation_domain", "//tachyon/math/polynomials/univariate:naive_batch_fft", "//tachyon/math/polynomials/univariate:radix2_evaluation_domain", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory"]},
    "caches": {"srcs": ["caches.cc"], "deps": ["//tachyon/math/circle/m31:g1", "//tachyon/math/elliptic_curves/bls12/bls12_381:bls12_381", "//tachyon/math/elliptic_curves/bn/bn254:bn254", "//tachyon/math/elliptic_curves/bn/bn384_small_two_adicity:fq", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/koala_bear:koala_bear", "//tachyon/math/finite_fields/mersenne31:mersenne31", "//tachyon/math/matrix:matrix_utils", "//tachyon/math/polynomials/univariate:mixed_radix_evaluation_domain", "//tachyon/math/polynomials/univariate:radix2_evaluation_domain"]},
    "c07": {"srcs": ["c07.cc"], "deps": ["//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/finite_fields/baby_bear:baby_bear", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/polynomials/univariate:lagrange_interpolation", "//tachyon/math/polynomials/univariate:univariate_polynomial", "//tachyon/math/polynomials/univariate:univariate_evaluations"]},
    "c04": {"srcs": ["c04.cc"], "deps": ["//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/elliptic_curves/bn/bn254:g2", "//tachyon/math/elliptic_curves/short_weierstrass/test:sw_curve_config", "//tachyon/math/elliptic_curves/msm:fixed_base_msm", "//tachyon/math/elliptic_curves/msm:variable_base_msm", "//tachyon/math/geometry:point_conversions"]},
    "c08": {"srcs": ["c08.cc"], "deps": ["//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/finite_fields/baby_bear:baby_bear", "//tachyon/math/finite_fields/test:gf7", "//tachyon/crypto/sumcheck/multilinear:multilinear_sumcheck", "//tachyon/math/polynomials/multivariate:linear_combination", "//tachyon/math/polynomials/multivariate:multilinear_extension", "//tachyon/math/polynomials/multivariate:multivariate_polynomial"]},
    "c09": {"srcs": ["c09.cc"], "deps": ["//tachyon/crypto/commitments/merkle_tree/field_merkle_tree:extension_field_merkle_tree_mmcs", "//tachyon/crypto/commitments/merkle_tree/field_merkle_tree:field_merkle_tree_mmcs", "//tachyon/crypto/commitments/merkle_tree/binary_merkle_tree:binary_merkle_tree", "//tachyon/crypto/commitments/merkle_tree/binary_merkle_tree:simple_binary_merkle_tree_storage", "//tachyon/crypto/hashes/sponge:padding_free_sponge", "//tachyon/crypto/hashes/sponge:truncated_permutation", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2_params", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_baby_bear", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/base/buffer:vector_buffer"]},
    "c10": {"srcs": ["c10.cc"], "deps": ["//tachyon/crypto/commitments/fri:two_adic_fri", "//tachyon/crypto/commitments/fri:simple_fri", "//tachyon/crypto/challenger:duplex_challenger", "//tachyon/crypto/commitments/merkle_tree/field_merkle_tree:extension_field_merkle_tree_mmcs", "//tachyon/crypto/commitments/merkle_tree/field_merkle_tree:field_merkle_tree_mmcs", "//tachyon/crypto/commitments/merkle_tree/binary_merkle_tree:simple_binary_merkle_tree_storage", "//tachyon/crypto/hashes/sponge:padding_free_sponge", "//tachyon/crypto/hashes/sponge:truncated_permutation", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2_params", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_baby_bear", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/base/buffer:vector_buffer", "//tachyon/crypto/transcripts:simple_transcript", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory"]},
    "c11": {"srcs": ["c11.cc"], "deps": ["//tachyon/crypto/commitments/kzg:kzg", "//tachyon/crypto/commitments/kzg:gwc", "//tachyon/crypto/commitments/kzg:shplonk", "//tachyon/crypto/commitments/pedersen:pedersen", "//tachyon/crypto/commitments:polynomial_openings", "//tachyon/zk/plonk/halo2:blake2b_transcript", "//tachyon/math/elliptic_curves/bn/bn254:bn254", "//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/base/buffer:vector_buffer"]},
    "c24": {"srcs": ["c24.cc"], "deps": ["//tachyon/math/elliptic_curves/bn/bn254:bn254", "//tachyon/math/elliptic_curves/bls12/bls12_381:bls12_381", "//tachyon/math/elliptic_curves/pairing:pairing"]},
    "c12": {"srcs": ["c12_rand_shplonk.cc", "c12_rand_gwc.cc", "c12_ex1.cc", "c12_ex2.cc", "c12_parts.cc"], "deps": ["//tachyon/zk/plonk/examples:circuit_test", "//tachyon/zk/plonk/examples:circuit_test_type_traits", "//tachyon/zk/plonk/examples:simple_circuit", "//tachyon/zk/plonk/examples:simple_circuit_test_data", "//tachyon/zk/plonk/examples:simple_lookup_circuit", "//tachyon/zk/plonk/examples:simple_lookup_circuit_test_data", "//tachyon/zk/plonk/examples:multi_lookup_circuit", "//tachyon/zk/plonk/examples:multi_lookup_circuit_test_data", "//tachyon/zk/plonk/examples:shuffle_circuit", "//tachyon/zk/plonk/examples:shuffle_circuit_test_data", "//tachyon/zk/plonk/examples:shuffle_api_circuit", "//tachyon/zk/plonk/examples:shuffle_api_circuit_test_data", "//tachyon/zk/plonk/examples/fibonacci:fibonacci1_circuit", "//tachyon/zk/plonk/examples/fibonacci:fibonacci2_circuit", "//tachyon/zk/plonk/examples/fibonacci:fibonacci3_circuit", "//tachyon/zk/plonk/examples/fibonacci:fibonacci1_circuit_test_data", "//tachyon/zk/plonk/examples/fibonacci:fibonacci2_circuit_test_data", "//tachyon/zk/plonk/examples/fibonacci:fibonacci3_circuit_test_data", "//tachyon/zk/plonk/halo2:poseidon_transcript", "//tachyon/zk/plonk/halo2:sha256_transcript", "//tachyon/zk/plonk/halo2:snark_verifier_poseidon_transcript", "//tachyon/math/elliptic_curves/bn/bn254/halo2:bn254"]},
    "c13": {"srcs": ["c13.cc"], "deps": ["//tachyon/zk/r1cs/groth16:prove", "//tachyon/zk/r1cs/groth16:verify", "//tachyon/zk/r1cs/constraint_system:quadratic_arithmetic_program", "//tachyon/math/elliptic_curves/bn/bn254:bn254", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/math/elliptic_curves/pairing:pairing"]},
    "c22": {"srcs": ["c22.cc"], "deps": ["//tachyon/base/buffer:copyable", "//tachyon/base/buffer:endian_auto_reset", "//tachyon/base/buffer:string_buffer", "//tachyon/base/buffer:vector_buffer", "//tachyon/base/files:file", "//tachyon/base/files:file_util", "//tachyon/base/json:json", "//tachyon/crypto/commitments/kzg:kzg", "//tachyon/crypto/commitments/kzg:gwc", "//tachyon/crypto/commitments/kzg:shplonk", "//tachyon/crypto/commitments/merkle_tree/field_merkle_tree:field_merkle_tree", "//tachyon/crypto/commitments/pedersen:pedersen", "//tachyon/crypto/hashes/sponge:padding_free_sponge", "//tachyon/crypto/hashes/sponge:truncated_permutation", "//tachyon/crypto/hashes/sponge/poseidon:poseidon", "//tachyon/crypto/hashes/sponge/poseidon:poseidon_params", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2_params", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_baby_bear", "//tachyon/crypto/sumcheck/multilinear:sumcheck_proving_key", "//tachyon/crypto/sumcheck/multilinear:sumcheck_prover_msg", "//tachyon/math/elliptic_curves/bn/bn254:bn254", "//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/elliptic_curves/bn/bn254:g2", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/mersenne31:mersenne31", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/geometry:dimensions", "//tachyon/math/geometry:point2", "//tachyon/math/geometry:point3", "//tachyon/math/geometry:point4", "//tachyon/math/matrix:matrix_types", "//tachyon/math/polynomials/multivariate:linear_combination", "//tachyon/math/polynomials/multivariate:multilinear_extension", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/math/polynomials/univariate:univariate_evaluations", "//tachyon/math/polynomials/univariate:univariate_polynomial", "//tachyon/zk/plonk/halo2:argument_data"]},
    "c23": {"srcs": ["c23.cc"], "deps": ["//tachyon/base/files:file_util", "//tachyon/base/buffer:vector_buffer", "//tachyon/crypto/challenger:duplex_challenger", "//tachyon/crypto/challenger:hash_challenger", "//tachyon/crypto/challenger:multi_field32_challenger", "//tachyon/crypto/hashes/sponge:padding_free_sponge", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_baby_bear", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_bn254", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2_params", "//tachyon/crypto/random/cha_cha20:cha_cha20_rng", "//tachyon/crypto/random/xor_shift:xor_shift_rng", "//tachyon/crypto/transcripts:simple_transcript", "//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/elliptic_curves/pasta/pallas:fr", "//tachyon/math/elliptic_curves/pasta/pallas:fq", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/zk/plonk/halo2:blake2b_transcript", "//tachyon/zk/plonk/halo2:poseidon_transcript", "//tachyon/zk/plonk/halo2:sha256_transcript", "//tachyon/zk/plonk/halo2:snark_verifier_poseidon_transcript", "//tachyon/zk/plonk/halo2:random_field_generator"]},
    "c25": {"srcs": ["c25.cc"], "deps": ["//vendors/circom/circomlib/circuit:quadratic_arithmetic_program", "//vendors/circom/circomlib/json:json", "//vendors/circom/circomlib/json:groth16_proof", "//vendors/circom/circomlib/json:prime_field", "//vendors/circom/circomlib/r1cs:r1cs", "//vendors/circom/circomlib/wtns:wtns", "//vendors/circom/circomlib/zkey:zkey", "//tachyon/base/files:bin_file", "//tachyon/zk/r1cs/groth16:prove", "//tachyon/zk/r1cs/groth16:verify", "//tachyon/zk/r1cs/constraint_system:quadratic_arithmetic_program", "//tachyon/math/elliptic_curves/bn/bn254:bn254", "//tachyon/math/elliptic_curves/bls12/bls12_381:bls12_381", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/math/elliptic_curves/pairing:pairing"]},
    "c26": {"srcs": ["c26.cc", "c26_sp1.cc"], "deps": ["//tachyon/c/zk/air/sp1:sp1", "//tachyon/base/buffer:vector_buffer", "//tachyon/c:version", "//tachyon/c/crypto/random:rng", "//tachyon/c/math/elliptic_curves/bn/bn254:fq", "//tachyon/c/math/elliptic_curves/bn/bn254:fr", "//tachyon/c/math/elliptic_curves/bn/bn254:fq2", "//tachyon/c/math/elliptic_curves/bn/bn254:fq6", "//tachyon/c/math/elliptic_curves/bn/bn254:fq12", "//tachyon/c/math/elliptic_curves/bn/bn254:g1", "//tachyon/c/math/elliptic_curves/bn/bn254:g2", "//tachyon/c/math/elliptic_curves/bn/bn254:msm", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:fq", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:fr", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:fq2", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:fq6", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:fq12", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:g1", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:g2", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:msm", "//tachyon/c/math/finite_fields/baby_bear:baby_bear4", "//tachyon/c/math/matrix:baby_bear_row_major_matrix", "//tachyon/c/math/polynomials/univariate:bn254_univariate_evaluation_domain", "//tachyon/c/zk/plonk/halo2:bn254_transcript", "//tachyon/crypto/random/cha_cha20:cha_cha20_rng", "//tachyon/crypto/random/xor_shift:xor_shift_rng", "//tachyon/math/elliptic_curves/bn/bn254:bn254", "//tachyon/math/elliptic_curves/bls12/bls12_381:bls12_381"]},
    "c29": {"srcs": ["c29.cc"], "deps": ["//tachyon/math/elliptic_curves/bn/bn384_small_two_adicity:fq", "//tachyon/base/buffer:vector_buffer", "//tachyon/crypto/commitments/kzg:gwc", "//tachyon/crypto/commitments/kzg:shplonk", "//tachyon/crypto/commitments/pedersen:pedersen", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2", "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2_params", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_baby_bear", "//tachyon/crypto/hashes/sponge:padding_free_sponge", "//tachyon/crypto/hashes/sponge:truncated_permutation", "//tachyon/crypto/sumcheck/multilinear:multilinear_sumcheck", "//tachyon/math/elliptic_curves/bn/bn254:bn254", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/elliptic_curves/pairing:pairing", "//tachyon/math/finite_fields/baby_bear:baby_bear", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/matrix/sparse:sparse_matrix", "//tachyon/math/matrix:matrix_operations", "//tachyon/math/matrix:matrix_utils", "//tachyon/math/polynomials/multivariate:linear_combination", "//tachyon/math/polynomials/multivariate:multilinear_extension", "//tachyon/math/polynomials/multivariate:multivariate_polynomial", "//tachyon/math/polynomials/univariate:lagrange_interpolation", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/math/polynomials/univariate:univariate_evaluations", "//tachyon/math/polynomials/univariate:univariate_polynomial", "//tachyon/zk/plonk/halo2:blake2b_transcript", "//tachyon/zk/r1cs/constraint_system:quadratic_arithmetic_program", "//tachyon/zk/r1cs/groth16:prove", "//tachyon/zk/r1cs/groth16:verify"]},
    "c30": {"srcs": ["c30_gwc.cc", "c30_shplonk.cc"], "deps": ["//tachyon/c/zk/plonk/halo2:bn254_prover", "//tachyon/c/zk/plonk/halo2:bn254_verifier", "//tachyon/c/zk/plonk/halo2:bn254_transcript", "//tachyon/c/zk/plonk/halo2:bn254_argument_data", "//tachyon/c/zk/plonk/halo2:bn254_instance_columns_vec", "//tachyon/c/zk/plonk/keys:bn254_plonk_proving_key", "//tachyon/c/zk/base:bn254_blinder", "//tachyon/zk/plonk/examples:circuit_test", "//tachyon/zk/plonk/halo2:poseidon_transcript", "//tachyon/zk/plonk/halo2:sha256_transcript", "//tachyon/zk/plonk/halo2:snark_verifier_poseidon_transcript", "//tachyon/math/elliptic_curves/bn/bn254/halo2:bn254", "//tachyon/base/files:file_util"]}
}
PROPS = {
    "C01": {"binary": "c01", "real": ["tachyon/base/parallelize.h", "tachyon/base/openmp_util.h", "tachyon/base/containers/container_util.h"]},
    "C02": {"binary": "c02", "real": ["tachyon/math/base/groups.h", "tachyon/math/base/semigroups.h", "tachyon/math/base/ring.h", "tachyon/math/base/rational_field.h", "tachyon/base/parallelize.h", "prime and extension fields"]},
    "C03": {"binary": "c03", "real": ["tachyon/math/elliptic_curves/short_weierstrass", "tachyon/math/geometry/point_conversions.h", "tachyon/math/base", "bn254 G1/G2 and the GF(7) test curve"]},
    "C15": {"binary": "files", "real": ["tachyon/base/files (File, file_util, FileEnumerator, MemoryMappedFile, ScopedTempDir, ScopedFD, BinFile)", "libstdc++ streams over the simulated calls"]},
    "C16": {"binary": "files", "real": ["tachyon/base/files (File, file_util, FileEnumerator, MemoryMappedFile, ScopedTempDir, ScopedFD, BinFile)", "libstdc++ streams over the simulated calls"]},
    "C17": {"binary": "files", "real": ["tachyon/base/files (File, file_util, FileEnumerator, MemoryMappedFile, ScopedTempDir, ScopedFD, BinFile)", "libstdc++ streams over the simulated calls"]},
    "C18": {"binary": "files", "real": ["tachyon/base/files (File, file_util, FileEnumerator, MemoryMappedFile, ScopedTempDir, ScopedFD, BinFile)", "libstdc++ streams over the simulated calls"]},
    "C19": {"binary": "runtime", "real": ["tachyon/base/threading/platform_thread_posix.cc", "tachyon/base/time", "tachyon/base/numerics"]},
    "C20": {"binary": "runtime", "real": ["tachyon/base/threading (platform_thread, platform_thread_ref)", "tachyon/base/time"]},
    "C21": {"binary": "runtime", "real": ["tachyon/device/tracking_allocator.cc", "tachyon/device/allocator_registry.cc", "tachyon/device/allocator.cc", "absl::Mutex over simulated futex/condition calls"]},
    "C14": {"binary": "c14", "real": ["tachyon/math/matrix", "tachyon/math/finite_fields (BabyBear, packed BabyBear, BabyBear4, KoalaBear and its packs, BN254 Fr, GF(7))"]},
    "C05": {"binary": "c05", "real": ["tachyon/math/polynomials/univariate (radix-2, mixed-radix, naive domains, twiddle cache)", "tachyon/math/matrix", "tachyon/math/finite_fields", "absl::Mutex over simulated threads"]},
    "C06": {"binary": "caches", "real": ["tachyon/math/polynomials/univariate (twiddle cache, radix-2 domains)", "one-time set-up of fields, towers, curves and pairings", "absl::Mutex and absl::call_once over simulated threads"]},
    "C07": {"binary": "c07", "real": ["tachyon/math/polynomials/univariate (dense, sparse, evaluations, interpolation)", "tachyon/math/base", "tachyon/base/parallelize.h"]},
    "C04": {"binary": "c04", "real": ["tachyon/math/elliptic_curves/msm (Pippenger, adapter, fixed base)", "tachyon/math/elliptic_curves/short_weierstrass", "bn254 G1/G2, the GF(7) test curve"]},
    "C08": {"binary": "c08", "real": ["tachyon/crypto/sumcheck/multilinear", "tachyon/math/polynomials/multivariate", "tachyon/base/parallelize.h"]},
    "C27": {"binary": "c08", "real": ["tachyon/math/polynomials/multivariate/multivariate_polynomial*.h", "tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h"]},
    "C09": {"binary": "c09", "real": ["tachyon/crypto/commitments/merkle_tree", "tachyon/crypto/hashes/sponge/poseidon2 (packed and scalar)", "tachyon/base/parallelize.h"]},
    "C10": {"binary": "c10", "real": ["tachyon/crypto/commitments/fri", "tachyon/crypto/challenger", "tachyon/crypto/commitments/merkle_tree", "tachyon/crypto/hashes/sponge", "tachyon/math/polynomials/univariate", "tachyon/base/parallelize.h"]},
    "C28": {"binary": "c10", "real": ["tachyon/crypto/commitments/fri", "tachyon/crypto/challenger", "tachyon/crypto/commitments/merkle_tree", "tachyon/crypto/hashes/sponge", "tachyon/math/polynomials/univariate", "tachyon/base/parallelize.h"]},
    "C11": {"binary": "c11", "real": ["tachyon/crypto/commitments/kzg", "tachyon/crypto/commitments/pedersen", "tachyon/crypto/commitments/polynomial_openings.h", "tachyon/math/elliptic_curves (MSM, pairing, bn254)", "tachyon/zk/plonk/halo2/blake2b_transcript.h over a BLAKE2b shim", "tachyon/base/buffer"]},
    "C24": {"binary": "c24", "real": ["tachyon/math/elliptic_curves/pairing", "tachyon/math/elliptic_curves/bn", "tachyon/math/elliptic_curves/bls12", "tachyon/math/finite_fields (towers to Fp12)", "tachyon/base/parallelize.h"]},
    "C12": {"binary": "c12", "quick": 100, "real": ["tachyon/zk/plonk (constraint system, layouts, keys, permutation, vanishing, Halo2 prover and verifier)", "tachyon/zk/lookup (Halo2 and log-derivative)", "tachyon/zk/shuffle", "tachyon/zk/base", "tachyon/crypto/commitments/kzg", "tachyon/crypto/transcripts and tachyon/zk/plonk/halo2 transcripts over a BLAKE2b/SHA-256 shim", "tachyon/math (domains, polynomials, MSM, pairing, bn254)"]},
    "C13": {"binary": "c13", "real": ["tachyon/zk/r1cs/constraint_system", "tachyon/zk/r1cs/groth16", "tachyon/math (domains, FFT, fixed- and variable-base MSM, pairing, bn254)"]},
    "C22": {"binary": "c22", "real": ["tachyon/base/buffer", "tachyon/base/json", "tachyon/math (fields, points, polynomials, matrices)::Copyable and JSON conversions", "tachyon/crypto (sponges, Merkle trees, KZG/GWC/SHPlonk/Pedersen keys, sumcheck keys)", "tachyon/base/files", "rapidjson"]},
    "C23": {"binary": "c23", "real": ["tachyon/crypto/random", "tachyon/crypto/transcripts", "tachyon/crypto/challenger", "tachyon/zk/plonk/halo2 (transcripts, proof serializer, random field generator, prime field conversion)", "tachyon/crypto/hashes/sponge", "tachyon/base/buffer"]},
    "C25": {"binary": "c25", "real": ["vendors/circom/circomlib (r1cs, wtns, zkey, base, json, quadratic_arithmetic_program)", "tachyon/zk/r1cs/groth16", "tachyon/base/files", "tachyon/base/buffer", "tachyon/math (bn254, bls12-381, domains, MSM, pairing)", "rapidjson"]},
    "C26": {"binary": "c26", "real": ["tachyon/c/math (fields, points, MSM, univariate polynomials, matrices)", "tachyon/c/crypto/random", "tachyon/c/zk/air/sp1 (two-adic FRI, Poseidon2 challenger, Merkle trees, hints)", "tachyon/c/zk/plonk/halo2/bn254_transcript"]},
    "C29": {"binary": "c29", "real": ["tachyon/math (polynomials, domains, matrices, fields, bn254)", "tachyon/crypto (Poseidon2, sponges, KZG, GWC, SHPlonk, Pedersen)", "tachyon/zk/r1cs/groth16", "tachyon/base (parallelize, buffer)"]},
    "C30": {"binary": "c30", "quick": 80, "real": ["tachyon/c/zk/plonk (Halo2 prover, verifier, transcripts, keys, constraint system, argument data)", "tachyon/c/zk/base", "tachyon/zk/plonk", "tachyon/zk/lookup", "tachyon/zk/shuffle", "tachyon/zk/base", "tachyon/crypto", "tachyon/math"]},
}
