ON = "rust/jstprove_onnx/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="other", observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, dict(technique=technique, level=level, level_note=note)))

CI = "abstract interpretation of the type-checked MIR with constant propagation over model structure, value numbering of sizes and trace partitioning"
CN = ("Structure (operator, ranks, which attributes and tensors are present) is enumerated in the scenarios, at most rank 5; dimensions, attribute values and tensor "
      "contents are abstract and unbounded within the machine integers. Trusted: rustc's MIR and the summaries of std containers, iterators, strings and floats. An alarm "
      "needs a fully understood result that differs from the rule for a concrete valuation; anything else is listed as undecided and does not alarm.")
SH = ON + "shape_inference.rs"

prop("P09", "Convolution and pooling output shapes follow the ONNX formulas",
     "For Conv, ConvTranspose, MaxPool, AveragePool and GlobalAveragePool the inferred output shape has the ONNX batch and channel dimensions and, on every spatial axis, the size the ONNX formula gives for that axis's kernel, stride, dilation, begin and end pad, group, output padding or explicit output shape; missing attributes take their ONNX defaults, the Conv kernel defaulting to the weight's trailing dimensions. What is not implemented (implicit padding by auto_pad, ceil rounding that differs from floor) is refused rather than sized wrongly. A zero or negative kernel or stride, a stride, pad or dilation list too short for the kernel, or a window larger than the padded input is refused with an error and never panics.",
     ["inputs", "configurations"], "every input and weight size, kernel, stride, dilation, pad, group and output padding value, for one to three spatial axes",
     "The tests exercise a few square kernels with symmetric pads on tiny inputs.",
     [SH], [("spatial size formulas", SH), ("attribute defaults and validation", SH)],
     CI + "; the inferred size must be the formula's value number on every trace", CN, observe=["infer_all_shapes"])
prop("P10", "Elementwise, matrix-product and broadcast shapes follow the ONNX rules",
     "The inferred output shape of the two-operand elementwise operators (Add, Sub, Mul, Div, Pow, Equal, Greater, Less, And), Where and Expand is the right-aligned numpy broadcast of all operand shapes, and operands that do not broadcast are refused. MatMul broadcasts its leading dimensions and contracts the inner ones with the numpy treatment of one-dimensional operands, Gemm honours transA and transB, and a disagreement of the contracted dimensions is refused. None of this ever panics, including for zero-sized dimensions and rank-zero operands.",
     ["inputs", "configurations"], "every operand size (including 0 and 1), every pairing of ranks up to four, operands that are inputs, constants or initializers, both transpose flags",
     "The tests cover a few equal-rank additions and one matrix product.",
     [SH], [("broadcast_shapes", SH), ("MatMul and Gemm shape rules", SH)],
     CI + "; the inferred size must be the rule's value number on every trace", CN, observe=["infer_all_shapes"])
prop("P11", "Reshape-like operators preserve elements and place axes as ONNX prescribes",
     "Reshape resolves 0 (copy, or a literal zero under allowzero), -1 (inferred from the element count) and explicit sizes exactly as ONNX does, and refuses a target whose element count differs from the input's; Flatten, Squeeze, Unsqueeze, Transpose and Concat place every dimension as ONNX prescribes, with negative axes counted from the end. The axes, shape or permutation may come from an attribute, an initializer or a constant node. Invalid axes, duplicate axes, permutations that are not permutations and mismatched concatenation operands are refused with an error and never panic.",
     ["inputs", "configurations"], "every input size, axis value and target shape value, ranks zero to four, every source the axes or shape can come from",
     "The tests cover a handful of literal shapes and axes.",
     [SH], [("reshape target resolution", SH), ("axis normalisation", SH)],
     CI + "; the inferred size must be the rule's value number on every trace", CN, observe=["infer_all_shapes"])
prop("P12", "Indexing, reduction and resizing shapes follow the ONNX rules",
     "The inferred output shapes of Gather, GatherElements, Slice, Split, Tile, Pad, TopK, the Reduce operators, Resize, GridSample, ConstantOfShape, Range and Shape are the ones ONNX defines, with negative axes and negative slice bounds counted from the end, slice bounds clamped to the dimension, every output of a multi-output operator given its own size, and parameters taken from attributes, initializers or constants alike. An axis out of range, a parameter list of the wrong length, sizes that do not add up or a required parameter that is missing are refused with an error and never panic.",
     ["inputs", "configurations"], "every input size, axis, bound, repeat, pad, scale and split value, every supported rank up to four, attributes present or absent",
     "The tests use literal shapes, mostly positive axes and in-range bounds.",
     [SH], [("per-operator shape rules", SH), ("slice bound clamping", SH)],
     CI + "; the inferred size must be the rule's value number on every trace", CN, observe=["infer_all_shapes"])
prop("P13", "Shapes flow through whole graphs, including shapes computed from constants",
     "Shape inference visits nodes after the nodes that produce their inputs whatever the order in the file, so a downstream operator sees exactly the inferred shape of its producer, and a declared output shape never overrides it; unknown input dimensions count as 1. Shape-preserving operators keep their input's shape, and arithmetic on constants (Shape, Gather, GatherElements, Slice, Concat, Squeeze, Unsqueeze, Cast, Reshape of known tensors) yields the values ONNX evaluates, so that a Reshape driven by it infers the right shape. Unsupported operators and inputs of unknown shape are refused with an error.",
     ["inputs", "histories"], "every dimension and every constant value in the graph skeletons, every order of the nodes in the file",
     "The tests infer mostly single-node graphs; constant folding is hardly exercised and node order not at all.",
     [SH, ON + "graph.rs"], [("fold_* constant evaluation", SH), ("topological traversal", ON + "graph.rs")],
     CI + "; constants folded on each trace and resulting sizes compared with the ONNX evaluation", CN, observe=["infer_all_shapes", "LayerGraph::from_parsed"])
GR, PA, CO = ON + "graph.rs", ON + "parser.rs", ON + "compat.rs"
CM = ("Structure (number of nodes, tensors, attributes, bytes; at most a handful each) is enumerated in the scenarios; names, dimensions, codes and values are abstract. Trusted: rustc's MIR, "
      "prost's decoder and encoder, and the summaries of std. An alarm needs a fully understood result that differs from the rule for a concrete valuation.")
prop("P14", "The layer graph carries every part of the model unchanged",
     "Building the layer graph keeps the nodes in file order with their names, operators, inputs, outputs and attributes, gives each layer exactly the initializer and constant tensors its own inputs name (an initializer winning over a constant of the same name, a constant being found wherever it is listed), and keeps input and output names in order, leaving initializers out of the inputs. Input shapes lose their batch dimension (when there are two or more dimensions) and count unknown or non-positive dimensions as 1. A model with an unknown operator anywhere is refused; attribute accessors return values of their own kind only.",
     ["inputs"], "every name, dimension, attribute value and tensor value in the graph skeletons",
     "No test builds a graph with constants, repeated names or several layers and looks at all its fields.",
     [GR], [("LayerGraph::from_parsed", GR), ("LayerNode attribute accessors", GR)], CI + "; every field must be the value number taken from the parsed model", CM, observe=["LayerGraph::from_parsed", "LayerNode::get_*_attr"])
prop("P15", "Layers are ordered after the layers that produce their inputs",
     "For a model whose produced tensors have distinct names, the topological order lists every layer exactly once and never before a layer producing one of its inputs, whatever the order of the nodes in the file and however often a tensor is used. A graph whose dependencies form a cycle through two or more layers is refused, every other one is accepted, and empty names (omitted inputs, unused outputs) are no dependency.",
     ["inputs", "histories"], "every assignment of producers to the inputs of up to six layers, with one or two outputs each",
     "Tests build chains in file order only.",
     [GR], [("topological_sort", GR)], "abstract interpretation of graph construction over MIR with abstract tensor names, partitioned by which names coincide; the derived order is checked against the dependency relation of each partition",
     CM, observe=["LayerGraph::from_parsed", "LayerGraph::iter_topo"])
prop("P16", "Operator names, scale plans and the compatibility check agree",
     "Every operator name the graph builder accepts selects the operator of that name (the Int64, ReLU, LeakyReLU and Hardswish spellings selecting their base operator), with the rescale flag, weight scale plan and element-rearranging class specified for that operator, and every other name is refused. The compatibility check answers yes exactly when every named operator of the model is on its list, each listed operator being one the graph builder accepts, and otherwise reports each offending operator once, in order of appearance; a missing file, an unreadable one and a model without a graph are reported as such.",
     ["inputs"], "every operator name that occurs in the code or in ONNX, every repetition pattern of unsupported operators",
     "The tests try a few names and never relate the tables to each other.",
     [GR, ON + "ops.rs", CO], [("OpType::from_str", GR), ("get_scale_plan", ON + "ops.rs"), ("is_compatible", CO)],
     "constant propagation over MIR through the operator tables and the compatibility check, for every name in the tables", CM, observe=["OpType::from_str", "get_scale_plan", "is_compatible"])
prop("P17", "The ONNX parser preserves every tensor, attribute, node and shape",
     "Parsing yields, in file order, each node's name, operator, domain, inputs, outputs and attributes of the supported kinds, each initializer's name, dimensions, type and values (raw little-endian data of Float, Double, Int32, Int64 and Bool tensors, or the typed fields), the input and output shapes with unknown dimensions as -1, and the highest version of the default operator set. A tensor whose values cannot be read faithfully (other raw types, raw data ending within an element, external storage, unsigned values beyond the signed range) makes parsing an error rather than losing values. The tensor accessors return its own shape, element count and values.",
     ["inputs"], "every byte of the raw data, every typed value, name, dimension, version and attribute in the model skeletons",
     "No test covers the parser beyond one tiny model.",
     [PA], [("extract_tensor_data", PA), ("parse_nodes and parse_attribute", PA), ("parse_value_infos", PA)],
     CI + ", with the decoded protobuf message as abstract input; every parsed field must be the value number of the corresponding message field", CM, observe=["parse_onnx"])
prop("P18", "Adding zero biases changes nothing but the bias of bias-less convolutions",
     "On success the written model is the input model in which every two-input Conv whose weight is an initializer with dimensions has one further input, a newly added initializer with a name used nowhere else, of the weight's element type, with one zero per output channel; nothing else is changed, added or removed. An unreadable file, an undecodable one, a model without a graph and a failing write are reported as errors.",
     ["inputs", "faults"], "every name, channel count and element type in the model skeletons, failure of every read, decode and write",
     "The test adds one bias to one float convolution.",
     [CO], [("add_zero_bias_to_conv", CO)], CI + "; the value handed to the encoder is compared with the specified model", CM, observe=["add_zero_bias_to_conv"])
QZ = ON + "quantizer.rs"
CQ = ("Structure (operators, shapes, which tensors are constant; a few weights each) is enumerated in the scenarios; weights, constants, sizes, field widths and attribute values are abstract. Float "
      "expressions are compared as expressions over the reals, rounding ignored. Trusted: rustc's MIR and the summaries of std. An alarm needs a fully understood result that differs from the rule "
      "for a concrete valuation.")
prop("P19", "A requested precision is honoured exactly or refused",
     "The exponent for d decimal digits is the smallest with 2^e >= 10^d; the largest safe exponent for a field of n bits and an accumulator bound b is the largest e >= 0 with 2e + ceil(log2 max(b,1)) + 1 <= n, or 0. Quantising for d digits uses base 2, that exponent and alpha = 2^e everywhere, and is refused exactly when the exponent exceeds the largest safe one for the largest accumulator of the graph (each rescaling layer's L1 weight norm times its input bound plus its largest bias, element counts of sums and products of computed matrices included; inputs and rescaled outputs are bounded by 1). The adaptive scale uses the largest safe exponent.",
     ["inputs", "configurations"], "every field width, bound, weight, constant and size in the graph skeletons",
     "The tests check a few literal exponents and one refusal.",
     [QZ], [("ScaleConfig", QZ), ("compute_max_bound", QZ)], CI + "; exponent, scale and verdict compared with the capacity formula on every trace", CQ,
     observe=["ScaleConfig::*", "compute_max_bound", "quantize_model_for_precision"])
prop("P20", "Quantised weights are the rounded scaled weights, each at its own scale",
     "In the quantised model every float weight at an input position of its layer's scale plan is replaced by round(w * alpha^k), k being the plan's power for that position (weights 1, biases 2), also when several layers use the tensor at different powers; every other tensor keeps its values. Layers keep their order, names, operators, inputs, outputs, attributes and rescale flags, and the model records the scale used; only a power with the single constant exponent one half is rewritten, into the square root of its base, and powers with negative or several exponents are refused.",
     ["inputs", "configurations"], "every weight, constant, exponent and scale in the graph skeletons",
     "The tests quantise one tiny model and look at one or two numbers.",
     [QZ, ON + "ops.rs"], [("quantize_layer_weights", QZ), ("rewrite_pow_sqrt", QZ), ("get_scale_plan", ON + "ops.rs")], CI + "; every tensor of the result compared with the rule's value number", CQ,
     observe=["quantize_model"])
prop("P21", "Folded batch normalisation computes the same function",
     "A batch normalisation with constant parameters becomes a multiplication by scale/sqrt(var+epsilon) and an addition of bias - mean*scale/sqrt(var+epsilon) per channel (epsilon defaulting to 1e-5), quantised at alpha and alpha squared, and the parameters it replaces are no longer attached to the layer. Each layer is folded with its own parameters even when tensors are shared, and into tensors whose names no other layer's folded tensors have. Parameters of different lengths, parameters computed at run time and a channel with var+epsilon <= 0 are refused with an error.",
     ["inputs"], "every parameter value, up to three channels, default and abstract epsilon, one or two layers",
     "No test folds a normalisation and looks at the numbers.",
     [QZ], [("fold_batchnorm_params", QZ)], CI + "; the folded tensors compared with the formula's value numbers", CQ, observe=["quantize_model"])
prop("P22", "Recorded bit widths cover every value a layer can produce",
     "Quantising records, under the layer's name, a bit width for every layer that rescales or range-checks; it is at least ceil(log2(alpha*B)) + 1 (2 when alpha*B <= 1) where B bounds the magnitude of the layer's values for model inputs within [-1,1]: weighted sums use the largest L1 norm per output times the input bound plus the largest bias, sums add, products multiply (times the contracted or reduced size), selections and clipping take the largest operand (constants and padding values included), division divides by the smallest non-zero divisor, powers, roots, exponentials, logarithms and normalisations use their own rules, and bounds follow the dependencies through the whole graph. Layers sharing a name get the widest width. Overriding widths with observed ones changes exactly the named layers, in the layer and in the record.",
     ["inputs", "configurations", "histories"], "every weight, constant, size, slope, epsilon and exponent in the graph skeletons, for every operator and for several scales",
     "Tests check that some width exists, not that it is wide enough.",
     [QZ], [("compute_layer_bound", QZ), ("compute_bounds and compute_n_bits", QZ), ("apply_observed_n_bits", QZ)], CI + "; recorded widths compared with the width the bound needs", CQ,
     observe=["quantize_model", "QuantizedModel::apply_observed_n_bits"])
prop("P23", "Shapes traced by the quantiser are the ONNX shapes",
     "The tensor shapes from which the quantiser takes the number of terms a sum or a matrix product accumulates (quantizer::propagate_shapes) are, for a batch of one, the ONNX shapes of convolution, transposed convolution, pooling with dilations, Gemm, MatMul, broadcasting, reshaping (copied and inferred dimensions), axis, slicing, padding, tiling, gathering, splitting, top-k, resizing and reducing operators, for every attribute form the operator has (attribute, initializer or Constant node, negative axes, defaults). Tracing them never panics. An impossible Reshape is an error rather than a wrong size.",
     ["inputs", "configurations"], "every dimension of at least 1, kernel, stride, pad, dilation, axis, start, end and target value in the shape-inference scenarios",
     "Tests quantise one model and never look at a traced size.",
     [QZ], [("propagate_shapes", QZ), ("broadcast_two", QZ)], CI + "; every traced shape compared with the rule's value number", CQ, observe=["quantize_model"])
LP = ON + "layer_params.rs"
prop("P24", "Layer parameters say what the layer computes",
     "The parameters read from a Gemm, Conv, MaxPool, BatchNormalization, Add or Sub layer (GemmParams, ConvParams, MaxPoolParams, BatchNormParams and AddSubParams::from_layer) name the layer's own operands, with no bias for an omitted one, and give exactly the dimensions of its weight, its transposition, pads, strides, window and output sizes and their products. A layer those parameters cannot express is refused rather than misread: transposed or scaled Gemm, grouped, dilated or automatically padded windows, padded or ceiling-mode pooling, mismatched channels, a window larger than its input, nonpositive strides, weights of another rank, missing weights or inputs, and a normalisation that was not folded. Reading parameters never panics.",
     ["inputs", "configurations"], "every weight dimension, input size up to 512, pad, stride, dilation, group, kernel and transposition value in the listed layer forms; Gemm factors at six sampled values each",
     "No test reads these parameters.",
     [LP], [("ConvParams::from_layer", LP), ("GemmParams::from_layer", LP), ("MaxPoolParams::from_layer", LP), ("BatchNormParams::from_layer", LP)], CI + "; every field compared with the rule's value number", CQ, observe=["from_layer"])
NA = []
