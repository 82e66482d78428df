E_='compiler/expander_compiler/src/'
STAND='Third-party crates absent from this sandbox (halo2curves, ethnum, shared_memory, axum, reqwest, warp) are replaced by stand-ins under shims/; none of their code is on the checked path except 256-bit integers.'
PROPS=[
dict(id='C31',crate='ecc',title='Compiled circuits compute exactly what the source program says',
 statement='For every valid source program, over every supported field, at every optimization level, with and without multiplication fan-out limits and input reordering, in the normal and the cross-layer form: compilation terminates without a panic, the compiled witness solver produces a witness for every input, and evaluating the layered circuit on it yields the outputs the program defines; the circuit accepts exactly when every constraint, division and boolean check of the program holds. A program is refused at compile time only when it has a check that can never hold.',
 over=['inputs','histories'],forall='every program of nested sub-circuits, arithmetic, divisions, boolean operations, zero tests, bit decompositions, hints and unconstrained operations; every option set; satisfying and violating inputs',
 why='The compiler is a pipeline of eleven rewriting passes; tests compare two passes on programs from one generator without hints or outputs-only circuits. Wrong constant folding, dropped checks and misplaced outputs need specific combinations (four such defects were present).',
 files=[E_+'compile/mod.rs',E_+'builder/basic.rs',E_+'builder/final_build_opt.rs',E_+'builder/hint_normalize.rs',E_+'layering/compile.rs',E_+'layering/wire.rs',E_+'circuit/layered/opt.rs',E_+'circuit/ir/common/opt.rs',E_+'circuit/ir/dest/mul_fanout_limit.rs',E_+'circuit/ir/hint_normalized/witness_solver.rs',E_+'hints/builtin.rs'],
 mech=[('compile_with_options',E_+'compile/mod.rs'),('layering::compile',E_+'layering/mod.rs'),('WitnessSolver',E_+'circuit/ir/hint_normalized/witness_solver.rs')],
 observe=['compile_with_options_and_progress','solve_witness_from_raw_inputs','layered::Circuit::run_with_output'],
 tech='property testing with a program generator; differential against a reference interpreter of the source language and an independent evaluator of layered circuits',
 note='Programs of up to 4 circuits and 24 instructions each. Random combination coefficients are drawn, so acceptance of a violated constraint is a field-size coincidence (fresh coefficients are retried). Checks implied by a value nothing depends on may be removed by the compiler; the verdict is not compared when only such a check fails. '+STAND,level='exploration'),
dict(id='C32',crate='ecc',title='No choice of hint values makes a compiled circuit lie',
 statement='For every program without unconstrained instructions, whatever values a dishonest prover supplies in place of the hints the compiler inserts (inverses, zero tests, bit decompositions) or writes over any of the positions of the witness beyond the program inputs, the layered circuit either rejects or yields exactly the outputs the program defines for those inputs; in particular inputs that violate a constraint are never accepted.',
 over=['inputs','fault_sequences'],forall='every program, option set, input and generated forgery (single and joint replacements by 0, 1, -1, inverses, other hint values, values plus the modulus in bit form, random values)',
 why='Every test uses the honest solver, so a missing constraint on a hint is invisible to all of them; a bit decomposition as wide as the field could be answered in two ways.',
 files=[E_+'builder/hint_normalize.rs',E_+'builder/basic.rs',E_+'builder/final_build_opt.rs',E_+'circuit/layered/opt.rs',E_+'layering/compile.rs'],
 mech=[('hint constraints of division, zero test and decomposition',E_+'builder/final_build_opt.rs')],
 observe=['solve_witness_from_raw_inputs','layered::Circuit::run_with_output'],
 tech='fault-injection property testing: dishonest hint answers and overwritten witness positions against a reference interpreter',
 note='12 forgeries per program and input set. '+STAND,level='exploration'),

dict(id='C33',crate='ecc',title='Witnesses survive packing, batches, files and loading unchanged',
 statement='For every set of assignments, the witness yields exactly those rows: one by one, packed into SIMD lanes (the last row repeated in unused lanes), after writing to and reading from the documented file format, and when the prover (all values) and the verifier (public values of every rank) load the file. Solving a batch gives the rows that solving each assignment alone gives, and evaluating a batch gives the row-wise results. Truncated files, files over another field and headers whose sizes do not fit the data are refused with an error, never a panic or a huge allocation.',
 over=['inputs','fault_sequences'],forall='every field and lane count, number of rows (including 1, exactly a pack, one more), row width, edge-biased values, truncation point and header',
 why='The one test compares two conversions of the same type on random data; block boundaries, partial blocks, single rows and hostile headers are not sampled (headers could abort the process).',
 files=[E_+'circuit/layered/witness.rs',E_+'circuit/ir/hint_normalized/witness_solver.rs','prover/circuit/src/serde.rs','prover/circuit/src/layered/circuit.rs'],
 mech=[('Witness',E_+'circuit/layered/witness.rs'),('load_witness_bytes','prover/circuit/src/layered/circuit.rs')],
 observe=['iter_scalar','iter_simd','to_simd','serialize_into/deserialize_from','load_witness_bytes','solve_witnesses_from_raw_inputs'],
 tech='round-trip, differential (hand-written layout, row-wise reference) and fault-injection property testing',
 note='1-40 rows, lane counts 1, 8, 16 and 64. '+STAND,level='exploration'),
dict(id='C34',crate='ecc',title='Circuits survive files, flattening and sharing with their meaning',
 statement='Source programs, witness solvers, layered circuits and prover circuits are read back equal from their files; the flattened prover circuit evaluates, layer by layer and lane by lane, to what the layered circuit evaluates to, is the same every time it is flattened or compiled, identifies every random coefficient exactly once, and gets the same coefficients by both ways of sampling; a copy through shared memory is the same circuit. Truncated or damaged files and files of another field or version are errors, never panics; a tampered layered circuit is either refused by validation or evaluates as its gates say.',
 over=['inputs','fault_sequences'],forall='every compiled program, option set, field, truncation and damage point, and one- or two-field edit of a circuit',
 why='Prover and verifier each load and flatten the circuit on their own, so any nondeterminism or lost field breaks honest proofs only sometimes (flattening order depended on hash seeds); tests flatten once.',
 files=[E_+'circuit/layered/serde.rs',E_+'circuit/layered/export.rs',E_+'circuit/layered/mod.rs',E_+'circuit/ir/source/serde.rs',E_+'circuit/ir/hint_normalized/serde.rs','prover/circuit/src/ecc_circuit.rs','prover/circuit/src/layered/circuit.rs','prover/circuit/src/layered/serde.rs','prover/circuit/src/layered/shared_mem.rs','prover/gkr_engine/src/mpi_engine/shared_mem.rs'],
 mech=[('RecursiveCircuit::flatten','prover/circuit/src/ecc_circuit.rs'),('export_to_expander',E_+'circuit/layered/export.rs'),('validate',E_+'circuit/layered/mod.rs')],
 observe=['serialize_into/deserialize_from','export_to_expander_flatten','evaluate','fill_rnd_coefs/sample_rnd_coef_map','MPISharedMemory','validate'],
 tech='round-trip and differential property testing against an independent evaluator, with fault injection and structural mutation',
 note='Programs of up to 4 circuits and 20 instructions. '+STAND,level='exploration'),

dict(id='C36',crate='ecc',title='Honest proofs verify; altered claims, circuits, inputs and proofs do not',
 statement='For every circuit, witness and proof configuration (field, hash, commitment scheme, vanilla or squared GKR), the proof an honest prover makes for the circuit\'s output is accepted, without panicking, by all verifier entry points alike (sequential, parallel, reference and with or without precomputed coefficients); the claimed output is zero exactly when all outputs are. The same proof is rejected, never with a panic or huge allocation, for any other claimed output, for public inputs or a circuit with other output values, and after its bytes were cut, flipped, removed or overwritten. All entry points agree on every proof.',
 over=['inputs','fault_sequences','histories'],forall='every compiled or random layered circuit, lane contents, public inputs, configuration, single edit of claim, circuit, public input and proof bytes; repeated proving with one prover',
 why='The prover test suite does not build here and proves two fixed circuits; small circuits, wide outputs, zero polynomials, hostile proof bytes and the agreement of five verifier implementations are not sampled (one verifier ignored its pairing check, honest proofs with zero values failed).',
 files=['prover/gkr/src/prover/snark.rs','prover/gkr/src/verifier/snark.rs','prover/gkr/src/prover/gkr_vanilla.rs','prover/gkr/src/verifier/gkr_vanilla.rs','prover/gkr/src/verifier/gkr_square.rs','prover/gkr/src/verifier/common.rs','prover/gkr/src/verifier/structs.rs','prover/sumcheck/src/sumcheck.rs','prover/sumcheck/src/scratch_pad.rs','prover/sumcheck/src/verifier_helper.rs','prover/poly_commit/src/raw.rs','prover/poly_commit/src/orion/expander_api.rs','prover/poly_commit/src/hyrax/expander_api.rs','prover/poly_commit/src/basefold/verify.rs','prover/tree/src/tree.rs'],
 mech=[('Prover::prove','prover/gkr/src/prover/snark.rs'),('Verifier','prover/gkr/src/verifier/snark.rs'),('sumcheck','prover/sumcheck/src/sumcheck.rs')],
 observe=['Prover::prove','Verifier::verify','par_verify','verify_ref','Circuit::evaluate'],
 tech='completeness and fault-injection property testing of the proof protocol, differential between verifier entry points, and a constructed attack',
 note='Circuits of up to 24 layers and 64 inputs. Known finding: the public inputs are not absorbed into the transcript. Bytes of KZG and Whir openings that their verifiers do not use are not damaged here. '+STAND,level='exploration'),

dict(id='C37',crate='ecc',title='Commitment openings are complete and bound to value, point and polynomial',
 statement="For every polynomial, point and commitment scheme (raw, Orion, Hyrax, KZG, Basefold, Whir) over its fields, committing gives the same commitment every time, the honest opening verifies against the polynomial's true value, and commitment and opening survive serialization. The opening is rejected, without panicking, for any other value, for a point or commitment of another value, and when damaged. Batch openings at one or many points return the true values and verify; a batch opening made for other values, other points or swapped commitments, one put together after the challenges are known, and values chosen to cancel are rejected. The generic sumcheck proves exactly the sum of products, ends in the true value at its point, and refuses other sums and malformed proofs.",
 over=['inputs','fault_sequences'],forall='every polynomial, point, number of variables and polynomials, claimed value, damaged or constructed opening, per scheme and field',
 why='The tests that exist for these crates do not build here and open honest polynomials; they cannot show that nothing false verifies, which needs openings constructed against the verifier.',
 files=['prover/poly_commit/src/batching.rs','prover/poly_commit/src/hyrax/hyrax_impl.rs','prover/poly_commit/src/hyrax/expander_api.rs','prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs','prover/poly_commit/src/kzg/uni_kzg/batch.rs','prover/poly_commit/src/kzg/bi_kzg/hyper_bikzg.rs','prover/poly_commit/src/orion/verify.rs','prover/poly_commit/src/basefold/verify.rs','prover/poly_commit/src/whir/pcs_trait_impl.rs','prover/poly_commit/src/raw.rs','prover/sumcheck/src/sumcheck_generic.rs','prover/sumcheck/src/sumcheck_generic/verifier.rs'],
 mech=[('ExpanderPCS','prover/gkr_engine/src/poly_commit/definition.rs'),('BatchOpeningPCS','prover/poly_commit/src/traits.rs'),('SumCheck','prover/sumcheck/src/sumcheck_generic.rs')],
 observe=['commit','open','verify','multi_points_batch_open/verify','single_point_batch_open/verify','SumCheck::prove/verify'],
 tech='reference evaluation, metamorphic rejection, fault injection and constructed forgeries in property tests',
 note='1-9 variables, up to 5 polynomials per batch. Known finding: Whir openings are not bound to the commitment. Damaged KZG openings only have to be handled without panicking (some fields are not read in one process). '+STAND,level='exploration'),
]
