A='prover/arith/'
STAND='Third-party crates absent from this sandbox (halo2curves, ethnum) are replaced by stand-ins under shims/; the oracle does not use them except for 256-bit integers.'
PROPS=[
dict(id='C23',crate='arith',title='Field and extension-field operations are the mathematical ones',
 statement='For every supported prime, binary and extension field (Mersenne31, BabyBear, Goldilocks, GF(2), BN254 and their extensions), every sequence of additions, subtractions, negations, multiplications, squarings, doublings, exponentiations, small-constant products, sums, products and inversions yields the element that modular/polynomial arithmetic yields, whatever the internal representation of the operands. Equality, ordering where supported, hashing and zero tests depend only on the value, zero has no inverse, and every other element does.',
 over=['inputs','histories'],forall='every field, operand (including 0, 1, p-1, powers of two and non-reduced machine representations) and operation sequence',
 why='The arithmetic crates do not even build in the default test setup, and their own tests multiply random elements; carries, reductions and non-canonical representations matter on a vanishing fraction of inputs (exp of zero in GF(2) was wrong).',
 files=[A+'mersenne31/src/m31.rs',A+'src/monty.rs',A+'goldilocks/src/goldilocks.rs',A+'gf2/src/gf2.rs',A+'mersenne31/src/m31_ext3.rs',A+'goldilocks/src/goldilocks_ext.rs',A+'gf2_128/src/gf2_ext128/avx.rs'],
 mech=[('impl Field','prover/arith/src/field.rs'),('mod_reduce','prover/arith/goldilocks/src/goldilocks.rs')],
 observe=['Field trait methods and operators'],
 tech='model-based property testing: random straight-line programs stepped next to an integer/polynomial model',
 note='Programs of 1-24 operations on three registers; model uses 256-bit integers and schoolbook polynomial products. '+STAND),
dict(id='C24',crate='arith',title='Packed (SIMD) fields act lane by lane exactly like their scalars',
 statement='For every packed field, packing and unpacking are inverse, and every operation, comparison, hash and zero test on packed elements equals the scalar operation on each lane, for every combination of lane values. Broadcasting, scaling, horizontal sums, embedding of base-field elements, multiplication by base-field elements and by x, and conversion to and from limbs agree with the full field operations.',
 over=['inputs','histories'],forall='every packed and extension type, independent lane values including edge and non-reduced ones, and operation sequence',
 why='Lane tests sample uniformly random lanes, where wrong carries and skipped halves do not show; equality, zero tests and hashing that look at part of the lanes were real defects.',
 files=[A+'mersenne31/src/m31x16/m31_avx256.rs',A+'babybear/src/babybearx16/babybear_avx256.rs',A+'goldilocks/src/goldilocksx8/goldilocks_avx256.rs',A+'gf2/src/gf2x8.rs',A+'gf2_128/src/gf2_ext128x8/avx256.rs',A+'src/bn254xn.rs'],
 mech=[('impl SimdField','prover/arith/src/simd_field.rs'),('impl ExtensionField','prover/arith/src/extension_field.rs')],
 observe=['SimdField::pack/unpack/scale/horizontal_sum','ExtensionField methods'],
 tech='model-based property testing of packed-field programs lane by lane, plus metamorphic relations for packing and limbs',
 note='The default (AVX2) code paths are compiled and run; the AVX-512 and NEON variants are not. '+STAND),
dict(id='C25',crate='arith',title='Field elements survive bytes and integers, one encoding per element',
 statement='Serializing any field element (scalar, extension or packed) and reading it back yields an equal element; equal elements have identical bytes; truncated input is an error; and any byte string that is accepted reads as an in-range element that computes correctly and re-encodes to itself. Conversions from machine and 256-bit integers reduce modulo the field order, and elements derived from uniform bytes or random generators are in range, deterministic, and reach the whole field in every coefficient.',
 over=['inputs'],forall='every field type, element, byte string and integer',
 why='Round trips of a few random elements cannot exhibit a second encoding of the same element or an integer beyond one machine word; both kinds of defect were present.',
 files=[A+'src/field.rs',A+'src/monty.rs',A+'mersenne31/src/m31.rs',A+'goldilocks/src/goldilocks.rs',A+'goldilocks/src/goldilocksx8.rs'],
 mech=[('ExpSerde impls','prover/arith/src/field.rs'),('from_u256/from_uniform_bytes','prover/arith/src/monty.rs')],
 observe=['serialize_into/deserialize_from','from_u256','from_uniform_bytes'],
 tech='round-trip and differential property testing over elements, arbitrary bytes and integers',
 note='GF(2) and packed GF(2) accept several byte values per element by design (bits above the value are ignored); only acceptance, range and stability are required there. '+STAND),
dict(id='C26',crate='arith',title='FFTs evaluate on the root-of-unity domain and invert exactly',
 statement='For every field with roots of unity, the forward transform of any coefficient vector equals its evaluations at the powers of the generator of that size, the inverse transform undoes it in both orders, in-place and allocating forms agree, and the generator of each supported size has exactly that order. Bit reversal reverses exactly the given number of bits.',
 over=['inputs'],forall='every FFT field, power-of-two size up to 64 and coefficient vector; every generator size; every bit width',
 why='Unit tests compare forward and inverse transforms with each other, which a consistently wrong domain or order survives.',
 files=[A+'src/fft_field.rs',A+'src/field.rs'],
 mech=[('FFTField::fft/ifft','prover/arith/src/fft_field.rs'),('bit_reverse','prover/arith/src/utils.rs')],
 observe=['fft','ifft','fft_in_place','two_adic_generator'],
 tech='differential property testing against naive polynomial evaluation',
 note='Sizes up to 64 (the algorithm is uniform in the size).'),
dict(id='C27',crate='arith',title='Binary encoding (ExpSerde) round-trips and rejects bad input',
 statement='Every value of every serializable type (integers, floats, booleans, strings, arrays, vectors, options, maps, tuples, smart pointers, and structs and enums with the derived implementation) is read back equal from its bytes, consuming exactly the bytes written, in the documented little-endian layout with fields and variants in declaration order; equal values have equal bytes. Truncated input, unknown enum variants, malformed strings and implausible length prefixes yield an error, never a panic, an abort or a huge allocation; failures of the reader or writer are passed on.',
 over=['inputs','fault_sequences'],forall='every type shape, value, truncation point, damaged byte, read granularity and write failure point',
 why='The tests round-trip a few values; field order, enum tags past 255, nested generics, short reads, failing writers and hostile length prefixes are not sampled (strings and maps allocated whatever the prefix asked for).',
 files=['prover/serdes/src/serdes.rs','prover/serdes_derive/src/lib.rs'],
 mech=[('trait ExpSerde','prover/serdes/src/serdes.rs'),('derive(ExpSerde)','prover/serdes_derive/src/lib.rs')],
 observe=['serialize_into','deserialize_from'],
 tech='round-trip, differential (hand-written layout) and fault-injection property testing',
 note='A fixed family of derived types (named, tuple, unit, generic, nested, 270-variant enums) with generated values; readers that return short counts, writers that fail at a generated byte.'),
dict(id='C28',crate='arith',title='Polynomial evaluation, interpolation, fixing and products are exact',
 statement='Multilinear evaluation in all its forms (single pass, with scratch space, through equality polynomials, over mixed base, extension and packed fields) equals the defining sum over the hypercube. Fixing the top or bottom variables yields the polynomial restricted to that value; equality polynomials are 1 exactly on the matching vertex; univariate evaluation, addition, interpolation through given points and division by roots satisfy their defining identities; sums of products expand to the product of the evaluations and their hypercube sums are exact.',
 over=['inputs'],forall='every field, number of variables, coefficient vector and evaluation point, including zero and one coordinates and repeated points',
 why='The unit tests for these functions compare one implementation with another on a few random vectors of a fixed size; a wrong stride shows only for some variable counts (fix_bottom_variable folded the wrong coefficients).',
 files=[A+'polynomials/src/mle.rs',A+'polynomials/src/eq.rs',A+'polynomials/src/univariate.rs',A+'polynomials/src/ref_mle.rs',A+'polynomials/src/sum_of_products.rs'],
 mech=[('MultiLinearPoly','prover/arith/polynomials/src/mle.rs'),('EqPolynomial','prover/arith/polynomials/src/eq.rs'),('UnivariateLagrangePolynomial','prover/arith/polynomials/src/univariate.rs')],
 observe=['evaluate_jolt','fix_top_variable','fix_bottom_variable','build_eq_x_r','interpolate'],
 tech='differential property testing against naive defining sums and Lagrange formulas',
 note='Up to 8 variables or 24 coefficients; edge-biased coefficients and points. '+STAND),
dict(id='C29',crate='arith',title='Merkle proofs exist for every leaf and accept nothing else',
 statement='For every leaf list, tree construction yields the root that hashing pairs upwards yields, in agreement between construction from nodes, leaves and packed field elements; every leaf index and every aligned range has a proof that verifies and returns the committed leaves. Any claim with another leaf, position, range, sibling, root or tree height is rejected, and malformed proofs (indices outside the tree, non-aligned or empty ranges, wrong leaf counts) are rejected without a panic.',
 over=['inputs'],forall='every tree of 1-128 leaves, index, range and one- or two-edit forgery; every field packing',
 why='The existing tests check that honest paths verify; soundness means that nothing else does, which needs adversarial claims (an index outside the tree was accepted and odd-shaped ranges panicked or were accepted).',
 files=['prover/tree/src/tree.rs','prover/tree/src/path.rs','prover/tree/src/node.rs','prover/tree/src/leaf.rs'],
 mech=[('Tree','prover/tree/src/tree.rs'),('Path::verify, RangePath::verify','prover/tree/src/path.rs')],
 observe=['Tree::root','index_query','range_query','Path::verify','RangePath::verify'],
 tech='model-based property testing with an independent Merkle model and adversarially edited proofs',
 note='The model hashes with its own Keccak-256. Forgeries are edits of honest proofs, not hash collisions.'),
dict(id='C30',crate='arith',title='Transcripts bind every absorbed byte, in order, and replay identically',
 statement='The hashers compute their documented functions on every length. Two transcripts given the same history of appended data, commitments, challenges, locks and state changes produce the same challenges; histories that differ in any absorbed element, its order, or its position relative to a challenge produce different later challenges; challenges lie in the field, successive challenges differ, and proof bytes record exactly the unlocked absorbed data and are read back in the same order by the verifier.',
 over=['inputs','histories'],forall='every hasher, byte string, and history of 1-14 operations with one generated alteration',
 why='Fiat-Shamir soundness is a statement about all pairs of histories; the unit tests compare one transcript with itself (a commitment appended in mid-transcript made it forget everything before it).',
 files=['prover/transcript/src/byte_hash_transcript.rs','prover/hasher/src/sha2_256.rs','prover/hasher/src/mimc.rs','prover/hasher/src/poseidon.rs','prover/gkr_engine/src/transcript.rs'],
 mech=[('BytesHashTranscript','prover/transcript/src/byte_hash_transcript.rs')],
 observe=['append_u8_slice','append_commitment','generate_field_element','hash_and_return_state','finalize_and_get_proof'],
 tech='stateful metamorphic property testing of transcript histories; differential testing of hashers against independent implementations',
 note='SHA-256 and Keccak-256 are compared with published vectors and independent code; MiMC and Poseidon with a direct implementation of their round functions. tiny-keccak is a stand-in under shims/.'),
]
