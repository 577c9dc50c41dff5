#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json
P = []
def p(id, title, stmt, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=stmt,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

T = "The unit tests are built without OpenMP, so they execute one sequential schedule; "

p("C01", "Parallel loop helpers cover every element exactly once and in order",
  "The parallel for-each, map, fill, resize and vector-creation helpers apply the caller's function to every element exactly once, in contiguous, disjoint chunks that together cover the input, and return mapped values in input order. The outcome is the one a sequential loop would give, for every input length, chunk size, number of threads granted and interleaving. No chunk is empty, skipped, duplicated or overlapping, and elements outside the container are never touched.",
  ["schedules", "inputs", "configurations"],
  "every container length, chunk size, threshold and requested/granted thread count, every interleaving of the workers (including stalled workers and out-of-order dynamic chunks)",
  T + "a handful of fixed lengths are sampled and no worker ever runs concurrently with another.",
  ["tachyon/base/parallelize.h", "tachyon/base/openmp_util.h", "tachyon/base/containers/container_util.h"],
  [("chunk arithmetic", "tachyon/base/parallelize.h"), ("per-thread size", "tachyon/base/openmp_util.h")],
  observe=["callbacks' arguments", "returned vectors", "container contents"])

p("C02", "Batch field operations equal the element-wise operation",
  "Batch inversion (including with a common coefficient and with zeros present), scalar-vector products, inner products, successive powers, products, and batch evaluation or reduction of fractions give exactly what applying the single-element operation to each position gives. This holds for every length, in place or out of place, every thread count and every interleaving. A zero element stays zero and never disturbs its neighbours.",
  ["schedules", "inputs", "configurations"],
  "every vector (length 0 to many chunks, any pattern of zeros), every thread count and schedule",
  T + "the few sampled vectors never cross chunk boundaries under concurrency.",
  ["tachyon/math/base/groups.h", "tachyon/math/base/semigroups.h", "tachyon/math/base/ring.h", "tachyon/math/base/rational_field.h"],
  [("Montgomery batch inverse per chunk", "tachyon/math/base/groups.h"), ("chunked powers", "tachyon/math/base/semigroups.h")],
  observe=["output spans"])

p("C03", "Batch curve-point conversions equal point-wise conversion",
  "Normalising, converting or doubling-and-scaling a batch of elliptic-curve points gives, at every position, exactly the point that converting that one point gives, with the point at infinity handled at any position. Results do not depend on batch length, on how the batch is split among threads, or on the interleaving. A size mismatch between input and output is refused without writing anything out of range.",
  ["schedules", "inputs", "configurations"],
  "every batch (length, infinity pattern, coordinate representation), thread count and schedule",
  T + "batches in tests are tiny and no chunk boundary falls inside them.",
  ["tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h", "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h", "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h", "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"],
  [("batch inversion of z", "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h")],
  observe=["output spans", "return value"])

p("C04", "Multi-scalar multiplication equals the sum of scalar multiples",
  "Variable-base and fixed-base multi-scalar multiplication return exactly the sum of each scalar times its base, for every length, every scalar (zero, one, minus one, repeated, maximal) and every base (infinity, repeated, opposite pairs), whatever parallelisation strategy, window choice, thread count or interleaving is used. Inputs of mismatched length are refused. Running one leaves the process-wide parallelism setting as it found it.",
  ["schedules", "inputs", "configurations", "histories"],
  "every base/scalar vector, strategy, window width, thread count and schedule, and every sequence of calls",
  T + "the windowed and term-parallel strategies are therefore never exercised, and the adapter is not built by the baseline suite.",
  ["tachyon/math/elliptic_curves/msm/variable_base_msm.h", "tachyon/math/elliptic_curves/msm/fixed_base_msm.h", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger.h", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h"],
  [("window split and bucket accumulation", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger.h"), ("strategy choice", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h")],
  state=[("thread-count setting", "process-wide OpenMP maximum", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h")],
  observe=["returned point", "parallelism setting after the call"])

p("C05", "Fourier transforms agree with direct evaluation and invert exactly",
  "For every supported domain (power-of-two, mixed-radix and the naive one, with or without a coset offset), the forward transform returns the polynomial's value at each domain element in order, the inverse transform recovers the polynomial, and low-degree extension of a batch of columns agrees with extending each column by evaluation. This holds for every degree up to the domain size, every thread count and every interleaving. Domain queries (elements, vanishing polynomial, Lagrange coefficients) agree with their definitions.",
  ["schedules", "inputs", "configurations"],
  "every domain size, offset, degree, batch width, thread count and schedule",
  T + "the parallel butterflies, the compaction path and the packed batch path are never interleaved.",
  ["tachyon/math/polynomials/univariate/radix2_evaluation_domain.h", "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h", "tachyon/math/polynomials/univariate/naive_batch_fft.h", "tachyon/math/polynomials/univariate/univariate_evaluation_domain.h"],
  [("butterfly passes", "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"), ("mixed-radix serial/parallel FFT", "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h")],
  observe=["evaluations, polynomials and matrices returned"])

p("C06", "Shared caches and one-time set-up never change a result",
  "Process-wide cached or lazily initialised data (transform tables, field and curve parameters, registries, the random number source) are invisible: any sequence of operations, from any number of concurrent callers and in any order, returns the same results as each operation run alone in a fresh process. Initialisation happens exactly once, every caller sees it complete, and data handed out stays valid while it is in use.",
  ["schedules", "histories"],
  "every history of differently sized and differently configured operations, and every interleaving of concurrent first uses",
  "The tests run each operation in one order in one thread; the history that leaves a partial cache entry behind, or two callers racing to fill it, never occurs.",
  ["tachyon/math/polynomials/univariate/radix2_twiddle_cache.h", "tachyon/math/finite_fields/prime_field_fallback.h", "tachyon/math/elliptic_curves/bn/bn_curve.h", "tachyon/base/no_destructor.h"],
  [("mutex-guarded table", "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h"), ("call_once initialisation", "tachyon/math")],
  state=[("table items", "cached roots per (size, generator)", "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h")],
  observe=["results of each operation", "termination of every caller"])

p("C07", "Univariate polynomial arithmetic is exact under any schedule",
  "Addition, subtraction, multiplication, division with remainder, evaluation, folding, linear combination, root-product construction and interpolation of univariate polynomials, dense, sparse or in evaluation form, agree with schoolbook arithmetic on coefficients, and results are normalised (no leading zero terms). This holds for every degree including zero and constant polynomials, in place or not, for every thread count and interleaving.",
  ["schedules", "inputs", "configurations"],
  "every pair of polynomials and operation, thread count and schedule",
  T + "a few literal polynomials of degree below ten are compared.",
  ["tachyon/math/polynomials/univariate/univariate_dense_coefficients.h", "tachyon/math/polynomials/univariate/univariate_polynomial_ops.h", "tachyon/math/polynomials/univariate/univariate_evaluations_ops.h", "tachyon/math/polynomials/univariate/lagrange_interpolation.h", "tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h"],
  [("chunked Horner evaluation", "tachyon/math/polynomials/univariate/univariate_dense_coefficients.h"), ("parallel coefficient loops", "tachyon/math/polynomials/univariate/univariate_polynomial_ops.h")],
  observe=["returned polynomials and field elements"])

p("C08", "Sum-check proves true sums and rejects tampered rounds",
  "For every multilinear polynomial combination, the sum-check prover's messages convince the verifier of the true sum over the boolean cube and the final sub-claim equals the polynomial's value at the challenge point; changing any round message or the claimed sum makes verification fail or the sub-claim false. Fixing variables and evaluating multilinear polynomials agree with the definition. All of this is independent of thread count and interleaving.",
  ["schedules", "inputs", "fault_sequences"],
  "every polynomial combination, number of variables, tampering position, thread count and schedule",
  T + "one random instance per size is tried and no message is corrupted.",
  ["tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h", "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h", "tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h"],
  [("per-round accumulation", "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h")],
  observe=["round messages", "verifier verdict", "sub-claim"])

p("C09", "Merkle commitments are deterministic, openable and binding",
  "Committing to leaves or to matrices of any mix of heights gives one root that depends only on the data, never on thread count or interleaving; an opening produced for any index verifies against that root. A changed, truncated or swapped root, leaf, index or sibling makes verification fail, and malformed shapes are refused with an error rather than accepted or crashing.",
  ["schedules", "inputs", "fault_sequences"],
  "every set of leaves/matrices, index, corruption, thread count and schedule",
  T + "the parallel tree layers never run concurrently and openings are not corrupted systematically.",
  ["tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"],
  [("layer-by-layer hashing", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h")],
  observe=["root", "opening", "verifier verdict"])

p("C10", "FRI openings are schedule-independent, complete and tamper-evident",
  "A FRI-based polynomial commitment, its opening proof and its proof-of-work witness are accepted by the verifier for every honest input, and commitment and opened values are the same for every thread count and interleaving. Corrupting the commitment, an opened value, a query answer, a final value or the work witness makes verification fail.",
  ["schedules", "inputs", "fault_sequences"],
  "every batch of matrices and opening points, corruption, thread count and schedule",
  T + "the suite does not build these targets in the baseline and tests verify one honest transcript.",
  ["tachyon/crypto/commitments/fri/prove.h", "tachyon/crypto/commitments/fri/verify.h", "tachyon/crypto/commitments/fri/two_adic_fri.h", "tachyon/crypto/challenger/challenger.h"],
  [("fold and commit phases", "tachyon/crypto/commitments/fri/prove.h"), ("grinding", "tachyon/crypto/challenger/challenger.h")],
  observe=["commitment", "opened values", "verifier verdict"])

p("C11", "Pairing-based polynomial commitments open correctly and bind",
  "Commitments computed from monomial or Lagrange form agree, batch commitments equal individual ones, and honest openings of any grouping of polynomials and points verify, also with parameters that were serialised, reloaded or downsized. Pedersen (vector) commitments equal the sum they stand for. A changed commitment, claimed value, point or proof element is rejected. None of it depends on thread count or interleaving.",
  ["schedules", "inputs", "fault_sequences"],
  "every set of polynomials and opening points (shared or distinct), corruption, thread count and schedule",
  T + "the baseline suite does not build these targets, and tests never corrupt an opening.",
  ["tachyon/crypto/commitments/kzg/kzg.h", "tachyon/crypto/commitments/kzg/gwc.h", "tachyon/crypto/commitments/kzg/shplonk.h", "tachyon/crypto/commitments/polynomial_openings.h"],
  [("set-up powers", "tachyon/crypto/commitments/kzg/kzg.h"), ("grouping of openings", "tachyon/crypto/commitments/polynomial_openings.h")],
  observe=["commitments", "proof bytes", "verifier verdict"])

p("C12", "PLONK proofs: same bytes under any schedule, valid iff the circuit holds",
  "Given the same circuit, witness, set-up and randomness seed, key generation and proving produce the same proof bytes for every thread count and interleaving, and the verifier accepts that proof; for the recorded example circuits the bytes are those Halo2 makes. This holds for every circuit shape: custom gates with rotations, several selectors, equality constraints and constants, instance columns, lookups into several tables, shuffles, several circuits in one proof, and each commitment scheme, lookup argument, transcript and floor planner. A witness that breaks any one constraint yields no accepted proof. A proof with any part altered or cut off, or checked against other public inputs, is not accepted.",
  ["schedules", "inputs", "fault_sequences"],
  "every circuit shape, witness, commitment scheme, lookup argument, transcript, seed, corruption, thread count and schedule",
  T + "the prover is not built by the baseline suite; golden proofs are compared for one sequential run of a handful of circuits.",
  ["tachyon/zk/plonk/halo2/prover.h", "tachyon/zk/plonk/halo2/verifier.h", "tachyon/zk/plonk/constraint_system", "tachyon/zk/plonk/keys/proving_key.h", "tachyon/zk/plonk/permutation/permutation_prover_impl.h", "tachyon/zk/lookup/halo2/prover_impl.h", "tachyon/zk/lookup/log_derivative_halo2/prover_impl.h", "tachyon/zk/shuffle/evaluator.h", "tachyon/zk/plonk/vanishing/vanishing_prover_impl.h"],
  [("proof pipeline", "tachyon/zk/plonk/halo2/prover.h"), ("parallel argument construction", "tachyon/zk/lookup/log_derivative_halo2/prover_impl.h"), ("selector compression", "tachyon/zk/plonk/constraint_system/selector_compressor.h")],
  observe=["proof bytes", "verifier verdict"])

p("C13", "Groth16 proofs verify for satisfied circuits only",
  "For every rank-1 constraint system and satisfying assignment the generated proof is accepted with its public inputs, in both plain and zero-knowledge form; a changed proof element or public input is rejected. The reduction to a polynomial quotient agrees with its definition. Keys, reduction and proofs depend only on inputs and randomness, never on thread count or interleaving.",
  ["schedules", "inputs", "fault_sequences"],
  "every constraint system, assignment, corruption, thread count and schedule",
  T + "one fixed circuit is proven sequentially and the baseline does not build the prover.",
  ["tachyon/zk/r1cs/groth16/prove.h", "tachyon/zk/r1cs/groth16/verify.h", "tachyon/zk/r1cs/groth16/proving_key.h", "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"],
  [("witness map with unsynchronised loops", "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h")],
  observe=["keys", "proof", "verdict"])

p("C14", "Matrix products and conversions equal their definitions",
  "Dense and sparse matrix-vector, vector-matrix and matrix-matrix products, transposition, packing and format conversion give exactly the values of the textbook definition for every shape and sparsity pattern, thread count and interleaving. Incompatible shapes are refused.",
  ["schedules", "inputs", "configurations"],
  "every shape, sparsity pattern, thread count and schedule",
  T + "three or four literal matrices are compared.",
  ["tachyon/math/matrix/matrix_operations.h", "tachyon/math/matrix/sparse/sparse_matrix.h", "tachyon/math/matrix/matrix_utils.h"],
  [("row-parallel products", "tachyon/math/matrix/matrix_operations.h")],
  observe=["result matrices"])

p("C15", "File reads and writes are exact or report failure",
  "Reading or writing through the file layer transfers exactly the requested bytes at the requested position, or reports how many bytes were transferred or that it failed; success is never reported for data that is not in the file. This holds when the operating system interrupts calls, transfers fewer bytes than asked, or fails with an I/O error or a full disk at any point. Bytes outside the written range and existing contents (for appends) are preserved.",
  ["fault_sequences", "inputs", "histories"],
  "every sequence of operations, offsets and sizes, and every placement of interrupts, short transfers, I/O errors and full disks",
  "Real file systems in the test sandbox never interrupt, shorten or fail these calls.",
  ["tachyon/base/files/file.cc", "tachyon/base/files/file_posix.cc", "tachyon/base/files/file_util.cc", "tachyon/base/files/file_util_posix.cc", "tachyon/base/files/bin_file.cc"],
  [("retry loops", "tachyon/base/files/file_posix.cc"), ("EINTR wrapper", "tachyon/base/posix/eintr_wrapper.h"), ("chunked whole-file reads", "tachyon/base/files/file_util.cc")],
  observe=["return values", "file contents in the simulated file system"])

p("C16", "Copying, moving and deleting files never loses or corrupts data",
  "A copy or move that reports success leaves the destination with exactly the regular files, directories and contents of the source (and, for a move, the source gone unless the system refused to remove it); one that reports failure, or a crash at any point of a move, never leaves the data complete in neither place. Deletion removes exactly the named entry or tree, never follows links out of it, and reports whether it is gone. Directory creation, listing (with and without name patterns), link and path resolution, and permission changes do and report exactly what is there.",
  ["fault_sequences", "crash_points", "inputs", "histories"],
  "every directory tree, operation sequence and placement of interrupts, short copies, cross-device moves, errors and crashes",
  "Tests run each operation once on a healthy file system; no call is interrupted or fails midway and no crash is simulated.",
  ["tachyon/base/files/file_util.cc", "tachyon/base/files/file_util_posix.cc", "tachyon/base/files/file_enumerator_posix.cc"],
  [("rename with copy fallback", "tachyon/base/files/file_util_posix.cc"), ("kernel copy with read/write fallback", "tachyon/base/files/file_util_posix.cc")],
  observe=["return values", "the simulated tree after the operation or crash"])

p("C17", "Descriptors, temporary files and directories are unique and never leak",
  "Every operation of the file layer, whether it succeeds or fails at any system call, leaves no descriptor, directory handle or memory mapping open beyond its owner's lifetime and never closes or uses one it does not own. Temporary names are unique under concurrent callers, a scoped temporary directory disappears with its owner unless released, the numbered name offered for a path is the first unused one, file locks exclude one another, and a closed or moved-from file object rejects use.",
  ["fault_sequences", "schedules", "histories"],
  "every operation, every failing system call in it, and concurrent creators",
  "Leaks on error paths are invisible to tests: errors do not occur and descriptors are not counted.",
  ["tachyon/base/files/file.cc", "tachyon/base/files/scoped_temp_dir.cc", "tachyon/base/files/scoped_file.cc", "tachyon/base/files/file_util_posix.cc", "tachyon/base/files/memory_mapped_file_posix.cc"],
  [("scoped descriptors", "tachyon/base/files/scoped_file.cc"), ("scoped directory", "tachyon/base/files/scoped_temp_dir.cc")],
  observe=["simulated descriptor and mapping tables", "simulated tree"])

p("C18", "A memory-mapped file shows exactly the requested region",
  "A successfully mapped file exposes exactly the bytes of the file in the requested region, for every offset (page-aligned or not) and length; a writable mapping's changes reach the file and an extended region reads as zeros. Failure of any underlying call is reported, leaves the object unmapped and releases everything it acquired.",
  ["inputs", "fault_sequences"],
  "every file size, region offset and length, access mode and failing call",
  "Tests map a few aligned and unaligned regions and never make a call fail nor check that the mapping is released.",
  ["tachyon/base/files/memory_mapped_file.cc", "tachyon/base/files/memory_mapped_file_posix.cc"],
  [("region alignment", "tachyon/base/files/memory_mapped_file.cc")],
  observe=["mapped bytes", "simulated mapping table"])

p("C19", "Sleeping and clocks respect elapsed time",
  "Sleeping suspends the caller for at least the requested duration even when interrupted any number of times, and other threads keep running; a monotonic reading never goes backwards and measured intervals equal the elapsed monotonic time, whatever jumps or skews the wall clock makes. Arithmetic, rounding, parsing and conversion of durations are exact (to a microsecond where a conversion goes through floating point) and saturate at the extremes rather than wrapping.",
  ["fault_sequences", "schedules", "inputs"],
  "every duration, placement of signal interruptions, wall-clock jumps and thread interleaving",
  "Real clocks never jump during a test and sleeps are not interrupted; tests would need real waiting.",
  ["tachyon/base/threading/platform_thread_posix.cc", "tachyon/base/time/time.cc", "tachyon/base/time/time_now_posix.cc", "tachyon/base/time/time_interval.cc"],
  [("remaining-time retry", "tachyon/base/threading/platform_thread_posix.cc")],
  observe=["simulated clock", "returned readings"])

p("C20", "Threads run exactly once, are joinable, and failures are reported",
  "A thread reported as created runs its body exactly once, joining returns only after the body has finished and its effects are visible, and thread identity is stable within a thread and distinct between live threads. If the operating system refuses to create a thread, creation reports failure, the body never runs and nothing leaks.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of creators, bodies and joiners, and every refused creation",
  "Thread creation never fails in tests and only the natural interleaving is observed.",
  ["tachyon/base/threading/platform_thread_posix.cc", "tachyon/base/threading/platform_thread_linux.cc", "tachyon/base/threading/platform_thread.h"],
  [("thread start hand-off", "tachyon/base/threading/platform_thread_posix.cc")],
  observe=["body executions", "return values", "thread ids"])

p("C21", "Allocator accounting is exact under concurrency and exhaustion",
  "The tracking allocator's byte counts, peak, per-allocation sizes and allocation records equal the sum over live allocations at every moment, for any interleaving of concurrent allocation and release; it frees itself exactly once, after its owner has finished and the last allocation is gone. A refused allocation returns nothing and changes no counter. The allocator registry returns the highest-priority registration and one shared instance.",
  ["schedules", "fault_sequences", "histories"],
  "every history of allocations, releases and refusals by concurrent threads",
  "Tests drive one thread through short fixed sequences.",
  ["tachyon/device/tracking_allocator.cc", "tachyon/device/allocator_registry.cc", "tachyon/device/allocator.cc"],
  [("reference counting under lock", "tachyon/device/tracking_allocator.cc")],
  state=[("ref", "owner plus live allocations", "tachyon/device/tracking_allocator.cc")],
  observe=["statistics", "underlying allocator calls"])

p("C22", "Serialized data round-trips; damaged data is refused safely",
  "Writing any supported value to a buffer and reading it back gives the same value, in either byte order, and the estimated size is the size written. Reading from data that was cut short at any byte, or writing past the capacity of a fixed buffer, reports failure without touching memory outside the buffer. Data damaged in storage never crashes the reader, never makes it read past the end, and never yields an out-of-range field element as valid where validation is promised.",
  ["inputs", "fault_sequences", "crash_points"],
  "every value, byte order, truncation point and stored-byte corruption",
  "Tests round-trip one value per type and never cut or damage the bytes.",
  ["tachyon/base/buffer/buffer.cc", "tachyon/base/buffer/read_only_buffer.cc", "tachyon/base/buffer/vector_buffer.h", "tachyon/base/buffer/copyable.h", "tachyon/math/base/big_int.h"],
  [("bounds checks", "tachyon/base/buffer/read_only_buffer.cc"), ("growth", "tachyon/base/buffer/vector_buffer.h")],
  observe=["values", "offsets", "memory accesses"])

p("C23", "Random streams and transcripts resume exactly after a restart",
  "Saving the state of a random generator or a proof transcript at any point and restoring it, in the same or in a new process, continues with exactly the values that would have come without the interruption. Prover and verifier transcripts fed the same messages derive the same challenges, and any difference in any message or in message order changes the next challenge. The verifier reads from a proof exactly what the prover wrote, and from a shortened or damaged one never a value out of range or a point off the curve. The same seed gives the same stream, and a truncated saved state is refused.",
  ["crash_points", "histories", "fault_sequences"],
  "every sequence of draws/absorbs/squeezes, every save point, every message alteration",
  "Tests save at one point, and the generators' and transcripts' targets are mostly not built by the baseline suite.",
  ["tachyon/crypto/random/xor_shift/xor_shift_rng.h", "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h", "tachyon/zk/plonk/halo2/blake2b_transcript.h", "tachyon/zk/plonk/halo2/sha256_transcript.h", "tachyon/zk/plonk/halo2/poseidon_transcript.h", "tachyon/crypto/challenger/duplex_challenger.h"],
  [("state serialization", "tachyon/crypto/random/rng.h")],
  observe=["draws", "challenges"])

p("C24", "Batched pairings equal the product of single pairings",
  "Pairings are bilinear and not degenerate, and a pairing over several point pairs equals the product of the individual pairings, with infinities contributing one, for every number of pairs, thread count and interleaving, on every supported pairing curve.",
  ["schedules", "inputs"],
  "every list of pairs (length, infinities, repeated or opposite points), thread count and schedule",
  T + "bilinearity is tested with one pair at a time, so pairs are never split among workers.",
  ["tachyon/math/elliptic_curves/pairing/pairing.h", "tachyon/math/elliptic_curves/bn/bn_curve.h", "tachyon/math/elliptic_curves/bls12/bls12_curve.h"],
  [("chunked Miller loop", "tachyon/math/elliptic_curves/bn/bn_curve.h")],
  observe=["target-group element"])

p("C25", "Circuit artefact files load exactly or are refused",
  "Constraint-system, witness and proving-key files in the circom formats load to exactly the data they encode, also while other threads load files or compute, and a proof made from them verifies. A file that is missing, empty, cut short, of another kind or for another field, whose section sizes or counts are inconsistent, or that holds unreduced values or indices out of range, or whose reading fails midway, is refused without crashing or reading outside the data. Proofs and public signals are written as JSON that states exactly their values.",
  ["inputs", "fault_sequences", "crash_points", "schedules"],
  "every file content, truncation point, corruption, failing read and interleaving of loads",
  "Tests load one intact file of each kind, and none is built by the baseline suite.",
  ["vendors/circom/circomlib/zkey/zkey.cc", "vendors/circom/circomlib/r1cs/r1cs.cc", "vendors/circom/circomlib/wtns/wtns.cc", "vendors/circom/circomlib/base/sections.h"],
  [("section table", "vendors/circom/circomlib/base/sections.h")],
  observe=["parsed structures", "memory accesses"])

p("C26", "The C interface computes what the C++ library computes",
  "The C interface to field and curve-point arithmetic, multi-scalar multiplication, transforms, polynomials, rational evaluations, matrices, random generators, transcripts, and the two-adic FRI scheme used by SP1 returns the same values as the native operations it wraps, for every input, thread count and interleaving, including callers on several threads with objects of their own. It handles zero-length input. Serialized objects and hints have exactly the announced size and read back as equal objects, truncated or out-of-range ones are refused, a clone stays valid and unchanged whatever happens to its original, and objects are created and destroyed without leaking or double-freeing.",
  ["schedules", "inputs", "histories"],
  "every call sequence over handles, every input, thread count and schedule",
  T + "each wrapper is called once with one size.",
  ["tachyon/c/math/elliptic_curves/msm/msm.h", "tachyon/c/math/elliptic_curves/generator", "tachyon/c/math/finite_fields/generator", "tachyon/c/math/polynomials/univariate", "tachyon/c/crypto/random/rng.cc", "tachyon/c/zk/air/sp1", "tachyon/c/zk/plonk/halo2/bn254_transcript.cc"],
  [("handle casts", "tachyon/c/base/type_traits_forward.h")],
  observe=["returned values", "allocations"])

p("C27", "Multivariate polynomial arithmetic and evaluation are exact under any schedule",
  "Adding, subtracting, negating, comparing, counting variables and degree of, looking up coefficients in and evaluating sparse multivariate polynomials agree with doing the same to their monomials one by one. The result never holds a zero coefficient or the same monomial twice, it is the same whether computed in place or not, and the zero polynomial is an ordinary value. This holds for every polynomial, every number of threads and every interleaving, including concurrent readers of one polynomial.",
  ["schedules", "inputs", "configurations"],
  "every pair of sparse multivariate polynomials (any number of variables and terms, cancelling terms, zero), every point, every thread schedule",
  T + "a few small fixed polynomials are used.",
  ["tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h", "tachyon/math/polynomials/multivariate/multivariate_polynomial.h", "tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h"],
  [("merging of sorted terms", "tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h"), ("parallel term evaluation", "tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h")],
  observe=["coefficients", "values at points"])

p("C28", "Coset domains and their Lagrange selectors follow their definitions",
  "For every two-adic coset, its elements, its vanishing polynomial, its split into sub-cosets, a disjoint coset of a requested size, and the first-row, last-row, transition and inverse-vanishing selectors, at a point or on a whole (larger) coset, are what their definitions say. This holds for every size, shift, ratio of sizes, number of threads and interleaving.",
  ["schedules", "inputs", "configurations"],
  "every coset and every larger coset, every thread schedule",
  T + "one coset and one size ratio are sampled.",
  ["tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h", "tachyon/crypto/commitments/fri/lagrange_selectors.h"],
  [("chunked selector evaluation", "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h")],
  observe=["selectors", "coset elements"])

p("C29", "Objects that are only read can be shared by any number of threads",
  "Univariate polynomials, transform domains (radix-2 and mixed-radix) and their cosets, multilinear extensions, dense matrices, hash functions (permutations, sponges, compression functions), commitment parameters (KZG, GWC, SHPlonk, Pedersen) and Groth16 proving and prepared verifying keys may be used by any number of threads at the same time as long as nobody changes them: every operation that does not change the object returns what it returns when one thread uses the object alone, also when it is the first operation on the object, and leaves the object equal. This holds for every object, number of threads and interleaving.",
  ["schedules", "inputs"],
  "every interleaving of readers of one object",
  "Unit tests use every object from one thread.",
  ["tachyon/math/polynomials", "tachyon/math/matrix", "tachyon/crypto/hashes", "tachyon/crypto/commitments", "tachyon/zk/r1cs/groth16"],
  [("const operations on a shared domain", "tachyon/math/polynomials/univariate/univariate_evaluation_domain.h"), ("commitments with shared parameters", "tachyon/crypto/commitments/kzg/kzg.h"), ("proofs with a shared key", "tachyon/zk/r1cs/groth16/prove.h")],
  observe=["results of the readers"])

p("C30", "The Halo2 C interface proves and verifies exactly as the library does",
  "For every BN254 Halo2 circuit (PSE and Scroll vendors; GWC and SHPlonk; Blake2b, Poseidon, SHA-256 and snark-verifier Poseidon transcripts; XORShift and ChaCha20 randomness; any number of circuits, phases, challenges, lookups and shuffles), a prover made through the C interface from the serialised proving key, commitment parameters, generator state, transcript state and columns produces byte for byte the proof that the library makes natively in one go with the same randomness; constraint-system queries, commitments and batched commitments made through C equal the native ones; a verifier made through C accepts that proof and refuses another statement or an altered proof; a key or parameters that end early, or that go on, are refused; and destroying the objects frees all they hold. Thread count, interleaving and team size never matter.",
  ["schedules", "inputs", "histories"],
  "every circuit, proving key, state handed over and interleaving",
  "The C unit tests cover the setters one at a time with fixed data and never make or verify a proof; no test uses the PSE vendor's prover.",
  ["tachyon/c/zk/plonk", "tachyon/c/zk/base", "tachyon/zk/plonk"],
  [("the C prover", "tachyon/c/zk/plonk/halo2/bn254_prover.cc"), ("reading a proving key", "tachyon/c/zk/plonk/keys/proving_key_impl.h"), ("reading expressions and constraint systems", "tachyon/c/zk/plonk/halo2/buffer_reader.h"), ("the quotient over the extended coset", "tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h")],
  observe=["proof bytes", "verdicts of the C verifier", "constraint-system getters", "commitments", "live heap blocks"])

NA = [
 ("C40", "Finite-field arithmetic obeys the field axioms",
  "For every prime, extension, packed or binary field, addition, multiplication, inversion and negation satisfy the field axioms and agree with integer arithmetic modulo the prime.",
  ["inputs"], "every pair of field elements", "Sampling cannot cover a 254-bit field.",
  ["tachyon/math/finite_fields"], [("Montgomery arithmetic", "tachyon/math/finite_fields/prime_field_fallback.h")]),
 ("C41", "Elliptic-curve operations obey the group law",
  "Addition, doubling, negation and scalar multiplication in every coordinate system agree with the affine group law, including exceptional cases.",
  ["inputs"], "every pair of points and scalar", "Sampling cannot cover the group.",
  ["tachyon/math/elliptic_curves/short_weierstrass"], [("formulas", "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h")]),
 ("C42", "A single pairing is bilinear and non-degenerate",
  "The pairing of scalar multiples equals the power of the pairing by the product of scalars.",
  ["inputs"], "every pair of points and scalars", "Sampling cannot cover the groups.",
  ["tachyon/math/elliptic_curves/pairing"], [("Miller loop", "tachyon/math/elliptic_curves/bn/bn_curve.h")]),
 ("C43", "Hash permutations match their specifications",
  "Poseidon, Poseidon2 and the byte hashes produce the outputs their specifications define.",
  ["inputs"], "every input", "Only published vectors are compared.",
  ["tachyon/crypto/hashes"], [("permutations", "tachyon/crypto/hashes/sponge")]),
 ("C44", "Text parsing and formatting round-trip",
  "Numbers, flags, JSON values, URLs, ranges and paths parse and print consistently and reject malformed text.",
  ["inputs"], "every string", "Tests list examples.",
  ["tachyon/base/strings", "tachyon/base/flag", "tachyon/base/json", "tachyon/base/files/file_path.cc"], [("parsers", "tachyon/base/strings/string_number_conversions.cc")]),
 ("C45", "Circuit layout and constraint compilation preserve meaning",
  "Floor planning, selector compression and expression evaluation represent exactly the constraints the circuit author declared.",
  ["programs"], "every circuit definition", "A few example circuits are compared with golden data.",
  ["tachyon/zk/plonk/layout", "tachyon/zk/plonk/constraint_system", "tachyon/zk/expressions"], [("selector compression", "tachyon/zk/plonk/constraint_system/selector_compressor.h")]),
 ("C46", "GPU back ends compute what the CPU computes",
  "Device implementations of fields, curves, MSM and transforms return the CPU results.",
  ["inputs"], "every input", "No GPU is available to tests.",
  ["tachyon/device/gpu", "tachyon/math/elliptic_curves/msm/variable_base_msm_gpu.h"], [("kernels", "tachyon/math/elliptic_curves/msm/algorithms/icicle")]),
]
for n in NA:
    p(*n)
if __name__ == "__main__":
    import os
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(d + "/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
