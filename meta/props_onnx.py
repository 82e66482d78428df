ON='rust/jstprove_onnx/src/'
def P(id,title,statement,forall,why,files,mech,observe,tech,note,over=('inputs',),**k):
    return dict(id=id,crate='onnx',title=title,statement=statement,over=list(over),forall=forall,why=why,files=[ON+f for f in files],mech=[(a,ON+b) for a,b in mech],observe=observe,tech=tech,note=note,**k)
PROPS=[
P('C07','Parsing an ONNX file keeps every value or refuses the file',
 'Parsing a model file yields exactly the nodes, attributes, initializers, inputs and outputs stored in it: every element of every float, double, integer or boolean tensor (raw or typed storage) with its exact value and dimensions, nodes without a name get distinct names, symbolic and unknown dimensions are marked. A tensor whose values cannot be decoded (external data, half precision, wrong element count) is refused, never read as zeros or dropped.',
 'every combination of tensors, storage forms, attribute kinds, names and dimensions',
 'Tests parse one or two hand-made models; weights silently lost in a storage form nobody sampled produce a circuit for a different network (several such forms were lost: a real defect).',
 ['parser.rs'],[('parse_onnx','parser.rs'),('tensor decoding','parser.rs')],['ParsedModel'],
 'property-based testing against the generated protobuf as oracle','Random structured models; the oracle is the value the generator encoded.'),
P('C08','Malformed models are reported as errors, never crash the converter',
 'Whatever a model file contains - random bytes, a truncated or bit-flipped model, a structurally inconsistent graph - compatibility check, bias insertion, parsing, graph building, shape inference and quantization return a result or an error. None of them panics.',
 'every byte string and every structural corruption of a model (sizes small enough to allocate)',
 'Robustness to arbitrary files cannot be sampled by hand-written tests; several index, overflow and capacity panics were found and repaired.',
 ['parser.rs','graph.rs','shape_inference.rs','quantizer.rs','compat.rs'],[('parse_onnx','parser.rs'),('infer_all_shapes','shape_inference.rs'),('quantize_model','quantizer.rs')],['panic or no panic'],
 'fuzzing with structure-aware mutation','Mutation fuzzing of generated models plus raw bytes; arithmetic wraps as in release builds.',over=('inputs','fault_sequences')),
P('C09','The layer graph is an executable form of the model',
 'The graph built from a model has one layer per node, each with the node\'s operator, inputs, outputs, attributes and the constants it reads; layers are ordered so that every layer comes after the layers that compute its inputs, for any order of nodes in the file; a cyclic model or an unknown operator is refused. Graph inputs are the declared inputs that are not initializers.',
 'every model, node order and dependency structure',
 'Tests build two or three small graphs in file order; ordering must hold for every dependency structure (omitted optional inputs broke it: a real defect).',
 ['graph.rs'],[('LayerGraph::from_parsed','graph.rs'),('topological_sort','graph.rs'),('OpType::from_str','graph.rs')],['LayerGraph'],
 'property-based testing of graph construction with an order oracle','Random models and random dependency graphs with and without cycles.'),
P('C10','Inferred shapes of elementwise and matrix layers equal executed shapes',
 'For every elementwise, broadcasting, comparison, normalisation and matrix-product layer (any rank, optional operands, constants and symbolic unit dimensions) shape inference gives exactly the shape that executing the layer by the ONNX definition gives, and operands whose shapes do not fit are refused.',
 'every operator of the group, rank 0-5, broadcasting pattern and attribute setting',
 'Tests cover a few fixed shapes; a wrong inferred shape yields a circuit for a different tensor layout (Max and Min ignored all but their first operand: a real defect).',
 ['shape_inference.rs'],[('infer_broadcast_binary/broadcast_shapes','shape_inference.rs'),('infer_matmul/infer_gemm','shape_inference.rs')],['infer_all_shapes'],
 'differential property testing against a reference ONNX interpreter','The interpreter in harness/onnx/src/t.rs executes each node on concrete values.'),
P('C11','Inferred shapes of convolution and pooling layers equal executed shapes',
 'For every Conv, ConvTranspose, MaxPool, AveragePool and GlobalAveragePool layer (1 to 3 spatial dimensions, strides, dilations, pads, groups, output padding) shape inference gives the executed shape, or refuses a form it does not support (implicit SAME padding, ceil mode); it never gives a different shape. Parameters that do not fit the input are refused.',
 'every window size, stride, dilation, padding, group count and input size',
 'The formula has many integer parameters and rounding cases; tests sample a few (pool dilations and implicit padding were ignored: real defects).',
 ['shape_inference.rs'],[('infer_conv','shape_inference.rs'),('infer_maxpool','shape_inference.rs'),('infer_conv_transpose','shape_inference.rs')],['infer_all_shapes'],
 'differential property testing against a reference ONNX interpreter','As C10.'),
P('C12','Inferred shapes of layout, indexing and reduction layers equal executed shapes',
 'For every reshaping, transposing, slicing, splitting, concatenating, padding, tiling, gathering, scattering, resizing, sampling, top-k and reduction layer, shape inference gives exactly the executed shape for every attribute and constant operand (negative axes, 0 and -1 in reshapes, out-of-range slice bounds, keepdims, empty axes), and invalid operands are refused.',
 'every operator of the group with every axis, bound, size and flag',
 'Tests fix one axis and one shape per operator; negative axes, clamping, empty axes and 0/-1 handling multiply into cases they do not reach (empty axes were wrong: a real defect).',
 ['shape_inference.rs'],[('infer_reshape/infer_slice/infer_split/infer_reduce/...','shape_inference.rs')],['infer_all_shapes'],
 'differential property testing against a reference ONNX interpreter','As C10.'),
P('C13','Shapes computed inside the model are folded to the values execution gives',
 'Where a model computes shape, axis or index operands from constants and tensor shapes (Shape, Gather, Slice, Concat, Cast, Squeeze, Unsqueeze, Reshape, GatherElements), the folded constants equal what executing that subgraph gives, so shapes that depend on them are exact at any nesting depth.',
 'every constant subgraph up to depth four over these operators',
 'Exported models contain deep shape subgraphs; tests fold one or two operators on one input (three folding defects were found).',
 ['shape_inference.rs'],[('fold_constants','shape_inference.rs')],['infer_all_shapes'],
 'differential property testing with generated constant subgraphs','Values are planted first and a random subgraph computing them is generated around them.'),
P('C14','Quantized weights are the scaled weights, rounded to the nearest integer',
 'After quantization every weight and bias of a Conv, Gemm, ConvTranspose, MatMul, LayerNormalization or GridSample layer is the nearest integer to its value times the scale (weights) or times the scale squared (biases), and every constant operand of an elementwise arithmetic, comparison, Clip, Max or Min layer and the fill value of a Pad layer is the nearest integer to its value times the scale, with unchanged dimensions; every other constant, attribute, input, output and the layer order stay untouched, and the scale is the requested one.',
 'every model, weight value and scale',
 'Tests check one layer at the default scale; a constant scaled at the wrong power or an operand scaled by accident changes the proved computation without failing.',
 ['quantizer.rs','ops.rs'],[('quantize_layer_weights','quantizer.rs'),('get_scale_plan','ops.rs')],['QuantizedModel'],
 'property-based testing with an arithmetic oracle','Values kept below 2^53 so that the oracle is exact.'),
P('C15','No layer can exceed the bit width quantization assigns to it',
 'Every layer that is rescaled or range-checked (linear layers, products, activations, pooling, comparisons, selection and resampling) gets a bit width, recorded identically on the layer and in the configuration, and for every model input in [-1, 1] its output times the scale fits into that width with its sign. Layers sharing a name get a width that suits all of them.',
 'every model over the bounded operators, every weight, every scale, every input in [-1,1]',
 'A width that is one bit short makes honest proofs fail or range checks meaningless, only for particular weights and inputs; tests check a few fixed numbers (six real defects were found).',
 ['quantizer.rs'],[('compute_bounds/compute_layer_bound','quantizer.rs'),('propagate_shapes','quantizer.rs'),('compute_n_bits','quantizer.rs')],['LayerNode::n_bits','QuantizedModel::n_bits_config'],
 'adversarial property testing: corner inputs improved coordinate by coordinate against the bit width','A search for counterexamples, not a proof; the two known findings concern declared inputs of rank two or more.'),
P('C16','The chosen scale meets the requested precision and fits the field',
 'A scale chosen for a number of decimal digits represents that many digits, and the square of the scale times the largest value of a weighted layer fits into the field bits with a sign; a precision is refused exactly when no such scale exists for the model\'s bound. The largest safe exponent and number of digits are maximal, and the model bound covers every value a weighted layer can produce from inputs in [-1, 1].',
 'every digit count, bit width up to 64, bound and single-layer model',
 'The rounding of logarithms decides at powers of two and ten; tests sample two or three points.',
 ['quantizer.rs'],[('ScaleConfig','quantizer.rs'),('compute_max_bound','quantizer.rs'),('quantize_model_for_precision','quantizer.rs')],['ScaleConfig','Result of quantize_model_for_precision'],
 'property-based testing with an arithmetic oracle and adversarial inputs','Multi-layer models use a documented heuristic (rescaled outputs count as at most one) and are outside the statement.'),
P('C17','Rewritten layers compute the same function',
 'Quantization replaces a batch normalisation by one factor and one summand per channel and a power with constant exponent one half by a square root; the replacement computes the original function (exactly up to rounding at the scale), other powers are left alone, and a variance that makes the normalisation undefined is refused.',
 'every channel count, rank, parameter value, epsilon, exponent and scale',
 'Tests fold one normalisation with simple numbers; sign, epsilon and mean terms cancel there.',
 ['quantizer.rs'],[('fold_batchnorm_params','quantizer.rs'),('rewrite_pow_sqrt','quantizer.rs')],['QuantizedModel layers'],
 'property-based differential testing of the folded integers against execution','Oracle: direct evaluation of the ONNX definition.'),
P('C18','The compatibility verdict names exactly the unsupported operators',
 'The compatibility check reports a model as compatible exactly when all its operators are on the supported list, otherwise lists every unsupported operator once, in order of appearance; a missing or undecodable file is reported as such without an error or a change to the file, and the converter accepts every operator the check calls supported.',
 'every sequence of operators and every file state',
 'Tests check one compatible and one incompatible model.',
 ['compat.rs'],[('is_compatible','compat.rs')],['(bool, Vec<String>)'],
 'property-based testing against a list oracle','The supported list is part of the statement (README).'),
P('C19','Inserting zero biases changes nothing but the missing biases',
 'Adding zero biases gives every convolution without a bias, whose weights are an initializer, a new zero bias of its own with as many elements as output channels, of the weights\' type and with a name used nowhere else; every other part of the model is unchanged and the result converts to the same shapes and bit widths.',
 'every model, naming scheme, element type and target path',
 'Tests insert one bias into one float model; name collisions and element sizes were wrong (real defects).',
 ['compat.rs'],[('add_zero_bias_to_conv','compat.rs')],['written model file'],
 'metamorphic property testing of the rewritten model','Compares the decoded protobufs and both conversions.'),
P('C20','Extracted layer parameters describe the layer that is executed',
 'The parameters extracted for Gemm, Conv, MaxPool, BatchNormalization, Add and Sub layers (sizes, strides, pads, operand names and order) reproduce the layer: evaluating the layer from them gives the executed result. Layers they cannot express (transposed left operand, groups, dilations, implicit padding, padded or ceil-mode pooling) are refused.',
 'every size and attribute combination of these layers',
 'No test covers them; two back ends build circuits from these numbers (dilations and ceil mode were silently ignored: real defects).',
 ['layer_params.rs'],[('GemmParams/ConvParams/MaxPoolParams/BatchNormParams/AddSubParams::from_layer','layer_params.rs')],['parameter structs'],
 'property-based differential testing: re-executing the layer from its parameters','Oracle: reference interpreter.'),
P('C21','Observed bit widths and stored quantized models are applied faithfully',
 'Overriding bit widths with observed ones changes exactly the named layers, in the layer and in the configuration alike, and nothing else; a quantized model written as an artifact and read back is identical.',
 'every quantized model and override set',
 'Tests override one layer of one model.',
 ['quantizer.rs','graph.rs'],[('apply_observed_n_bits','quantizer.rs'),('serde of QuantizedModel','quantizer.rs')],['QuantizedModel'],
 'property-based model and round-trip testing','Structural comparison of all fields.',over=('inputs','histories')),
P('C22','Names and file order do not influence the conversion',
 'Two files that encode the same network - tensors renamed, nodes reordered, initializers listed as inputs or not, data stored raw or typed, unit dimensions symbolic - convert to the same shapes, the same quantized weights and the same bit widths for corresponding layers.',
 'every model and every such re-encoding',
 'Hash-map iteration and name handling can leak into results only for particular names and orders; tests use one encoding.',
 ['parser.rs','graph.rs','shape_inference.rs','quantizer.rs'],[('LayerGraph::from_parsed','graph.rs'),('infer_all_shapes','shape_inference.rs'),('quantize_model','quantizer.rs')],['shapes, weights and bit widths'],
 'metamorphic property testing','Pairs of encodings of one generated model.'),
]
