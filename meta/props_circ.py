G_='rust/jstprove_circuits/src/circuit_functions/gadgets/'
STAND='Third-party crates absent from this sandbox are replaced by stand-ins under shims/ (ndarray, rmpv, strum, tracing, halo2curves, ethnum, ...); the manifests of circuit-std-rs and jstprove_circuits, whose own dependencies cannot be resolved offline, are replaced by manifests over the same source files.'
PROPS=[
dict(id='C38',crate='circ',title='Circuit gadgets are complete and admit only the right value',
 statement='For every in-range input, field, width and lookup chunk size, the gadgets that layer circuits are made of (range checks, division by constants and rescaling, lookup tables and the two-table exponential, matrix products with and without Freivalds, min, max, ReLU and clip) are satisfied by the honest witness and yield exactly the value they are documented to compute. No other choice of the values a prover is free to pick (hints, unconstrained quotients and remainders, digits) satisfies them with a different result, and a value outside the range, table or bound they check is never accepted.',
 over=['inputs','fault_sequences'],forall='every gadget, operand values with edges, width, shift, scale, chunk size, field (BN254, Goldilocks), and forgery of one or several free values (neighbouring quotients with compensating remainders, values shifted by the modulus or the divisor, re-derived digits, random values)',
 why='The unit tests of the gadgets exercise honest values at a handful of widths; soundness is a statement about dishonest witnesses, which no test generates. A range check that is one-sided at widths that are not multiples of the chunk, an unbounded quotient, and a multiplicity count that loses keys over one field were all present.',
 files=[G_+'range_check.rs',G_+'euclidean_division.rs',G_+'function_lookup.rs',G_+'max_min_clip.rs',G_+'linear_algebra.rs','rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs','compiler/circuit-std-rs/src/logup.rs','rust/jstprove_circuits/src/circuit_functions/hints/exp.rs'],
 mech=[('LogupRangeCheckContext',G_+'range_check.rs'),('LogUpRangeProofTable','compiler/circuit-std-rs/src/logup.rs'),('DecomposedExpLookup',G_+'function_lookup.rs')],
 observe=['range_check','rescale','constrained_max/min/relu/clip','FunctionLookupTable','DecomposedExpLookup::verify_exp','matrix_multiplication','freivalds_verify_matrix_product'],
 tech='fault-injection property testing: gadgets evaluated in a builder that records and replaces every free value, against integer reference models',
 note='Operands up to 60 bits over BN254 and 31 over Goldilocks, chunks of 1-10 bits, up to 14 forgeries a case. Random challenges are drawn, so acceptance of a forgery by chance has probability below 2^-50. '+STAND,level='exploration'),
dict(id='C39',crate='circ',title='The circuit built for an ONNX model computes the model, and nothing else',
 statement='For every supported ONNX model, generating its metadata and building its circuit either refuses or yields a circuit that the honest witness satisfies for every input in the documented domain, with outputs equal to the quantized outputs of the model as ONNX defines it: exactly for the operators that are exact on quantized values, within a fixed number of quantization steps for the approximated ones. No other choice of the values a prover is free to pick satisfies the circuit with outputs outside that tolerance. Which attributes, optional inputs and outputs, constants, broadcasting, axes and negative indices are used makes no difference.',
 over=['inputs','fault_sequences'],forall='every generated model of one to five nodes over 54 operators with their attributes, optional operands, shapes and constants, inputs in [-1,1] (times up to 4 for the functions), scale exponents of 10-14, lookup chunk sizes, the fields BN254 and Goldilocks, and forgeries of the hints',
 why='The existing tests of this layer need fixture models and run a few fixed networks. Whether operator semantics, quantized constants, bit widths and the constraints themselves agree for every attribute combination, and whether a dishonest witness can satisfy the constraints, is a statement over all models and witnesses. Eighteen of the operator implementations disagreed with ONNX, rejected honest witnesses or accepted forged ones when this check was written.',
 files=['rust/jstprove_circuits/src/circuit_functions/layers/mod.rs','rust/jstprove_circuits/src/circuit_functions/utils/build_layers.rs','rust/jstprove_circuits/src/circuit_functions/utils/tensor_ops.rs','rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs','rust/jstprove_circuits/src/circuit_functions/hints/mod.rs','rust/jstprove_circuits/src/onnx.rs','rust/jstprove_circuits/src/expander_metadata.rs'],
 mech=[('LayerOp','rust/jstprove_circuits/src/circuit_functions/layers/layer_ops.rs'),('build_layers','rust/jstprove_circuits/src/circuit_functions/utils/build_layers.rs'),('generate_from_onnx_for_field','rust/jstprove_circuits/src/expander_metadata.rs')],
 observe=['expander_metadata::generate_from_onnx_for_field','onnx::Circuit::define','OnnxContext'],
 tech='differential property testing of generated models: the circuit is evaluated in a builder that records and replaces every free value, against a reference interpreter of ONNX',
 note='Single nodes of 37 exact operators (output compared for equality) and 17 approximated ones (tolerance 2 to 17 quantization steps, by operator), functions over a range scaled up to 4, and chains of up to five exact operators; tensors up to 600 elements in all. Not covered, or only where stated, because the circuit documents or implements something narrower than ONNX: LayerNormalization (ignores epsilon), BatchNormalization, InstanceNormalization, GroupNormalization, Cast from float to integer (passes the quantized value through), GridSample and Resize outside what C13/C14 check of the quantized graph; Pow, averages and ReduceMean only for non-negative activations (the circuit rejects others); Sin and Cos only inside their table; Gelu below |x|=7 and Erf below |x|=5.6 (table range of the exponential); Gelu is computed as the exact function whatever approximate says, within the tolerance. Sums over declared batched inputs are left out of chains because of the finding of C15. '+STAND,level='exploration'),
]
