"""Properties of the proving system and the circuits."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="other", observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, dict(technique=technique, level=level, level_note=note)))


GV = "prover/gkr/src/verifier/"
GK = ("Circuit structure (a few layers, at most a few gates, one or two SIMD lanes and processes) is enumerated in the scenarios; gate coefficients, public inputs, challenges, proof items and field "
      "elements are abstract. The crate's external dependencies are not installed: it is type-checked against stand-ins (/verif/stubs) and fields are modelled as a commutative ring, transcripts as "
      "histories, proof items as opaque units. Nothing is said about the cryptographic strength of the protocol, the hash or the commitment. An alarm needs a fully understood acceptance condition that "
      "differs from the protocol's for a concrete valuation, or a path that stops.")
prop("P25", "The GKR verifier accepts exactly what the protocol demands",
     "Every verification path (Verifier::verify, par_verify, verify_ref and their variants with progress reporting) accepts a well-formed proof exactly when all of these hold: every sumcheck round's values at 0 and 1 sum to the running claim, the claim left after each layer's last round equals the layer relation in which the multilinear extensions of the gate lists (multiplication, addition, constant, power gates; public inputs and sampled random coefficients included) multiply the claimed wire values, and the polynomial commitment opens to the final claims at the final points. Every challenge is drawn after, and depends on, all earlier proof items in protocol order. No condition is skipped, weakened or added on any path, for any number of SIMD lanes and processes.",
     ["inputs", "configurations"], "every gate coefficient, public input, random coefficient, challenge and proof item, for the circuit skeletons, lane counts, process counts and schemes in the scenarios",
     "Tests can only show that honest proofs pass and that a few altered ones fail; a dropped check is invisible to honest proofs, and this crate does not even build offline.",
     [GV + "snark.rs", GV + "common.rs", GV + "gkr_vanilla.rs", GV + "gkr_square.rs", GV + "structs.rs", "prover/sumcheck/src/verifier_helper.rs"],
     [("Verifier::verify", GV + "snark.rs"), ("sumcheck_verify_gkr_layer", GV + "gkr_vanilla.rs"), ("verify_sumcheck_step", GV + "common.rs"), ("GKRVerifierHelper", "prover/sumcheck/src/verifier_helper.rs")],
     "abstract interpretation over MIR with field elements as canonical polynomials (value numbering) and transcripts as histories; the acceptance condition of each path is compared with the protocol's", GK,
     observe=["Verifier::verify", "Verifier::par_verify", "Verifier::verify_ref"])
prop("P26", "A truncated or malformed proof is rejected, never accepted and never a crash",
     "A proof that ends early, or whose next item cannot be decoded, at whatever item that happens (commitment, claimed value, any round of any layer, wire claims, opening), is rejected: every verification path returns false. None of them panics, loops or goes on as if the missing item were valid.",
     ["inputs", "faults"], "every position at which a proof of the circuit skeletons can be cut or corrupted in its encoding, for every verification path",
     "Tests verify well-formed proofs; the verifier's behaviour on each of the many possible truncation points is never exercised, and an attacker chooses the bytes.",
     [GV + "snark.rs", GV + "common.rs", GV + "gkr_vanilla.rs", GV + "gkr_square.rs", GV + "structs.rs"],
     [("parse_proof", GV + "snark.rs"), ("verify_sumcheck_step", GV + "common.rs")],
     "abstract interpretation over MIR with a proof whose decoding fails at each item in turn; every path's verdict must be false", GK, observe=["Verifier::verify", "Verifier::par_verify", "Verifier::verify_ref"])

DK = ("The macro is run by the compiler on the witness types and functions of /verif/stubs/crates/witness (structs and enums of every field kind, kernels of every parameter kind and depth, memorized functions of "
      "every signature kind); what it generates is analysed, not its text. Shapes other than those witnessed are not covered. An alarm needs a fully understood result that differs from the specified one.")
SD = "prover/serdes_derive/src/lib.rs"
MC = "compiler/expander_compiler/macros/src/lib.rs"
prop("P27", "Derived serialisation writes every field in order and reads back the same value",
     "For a type that derives ExpSerde, serialising writes every field exactly once in declaration order (an enum first writes the index of the variant among the declared variants as a u32, whatever discriminants are declared), and deserialising what was written yields the same value and leaves the stream right behind it. A write that fails, an input that ends early or cannot be decoded, and a variant index that no variant has are reported as errors; nothing else is written or read after the failure. This holds for generic types, nested types and enums with any number of variants.",
     ["inputs", "faults"], "every value of the witnessed type shapes (up to 300 variants, unit, tuple and struct variants, generics), every position of a failure, unknown variant indices around all width boundaries",
     "Proof and circuit files are exchanged between machines and versions; no test derives the trait for most shapes, and a swapped pair of fields of one type round-trips in neither direction only for unequal values.",
     [SD], [("serdes_derive", SD)],
     "abstract interpretation over the MIR of witness types expanded by the repository's derive macro; streams are lists of items", DK, observe=["ExpSerde::serialize_into", "ExpSerde::deserialize_from"])
prop("P28", "Basic values survive serialisation; bad or truncated bytes are errors",
     "Numbers, booleans, strings, field and curve elements, vectors, arrays, pairs, options and maps are written in a fixed format (little-endian fixed-width numbers, an 8-byte length before the elements of a vector, map or string, one byte before the value of an option) and reading it back yields the value and leaves the stream right behind it. A writer that fails, an input that ends early, a declared length beyond the input, an element that cannot be decoded, bytes that are no text or encode no curve or field element are reported as errors. Reading never panics and never allocates by a declared length alone.",
     ["inputs", "faults"], "every number, element and text, vectors, arrays and maps of the lengths in the scenarios, every position at which the stream may end, declared lengths up to 2^64-1",
     "Proofs, witnesses and circuits come from other parties: an attacker chooses the bytes and the lengths; tests only round-trip a few values.",
     ["prover/serdes/src/serdes.rs", "prover/serdes/src/macros.rs", "prover/serdes/src/error.rs"],
     [("ExpSerde implementations", "prover/serdes/src/serdes.rs"), ("exp_serde_for_number", "prover/serdes/src/macros.rs")],
     "abstract interpretation over MIR with streams of opaque bytes; written bytes, read values and errors are compared with the format",
     "Lengths and fault positions are enumerated; numbers and elements are opaque. The crate is type-checked against stand-ins for ethnum and halo2curves (/verif/stubs), whose encodings are taken to be invertible and of fixed width. Booleans other than 0 and 1 are not judged. An alarm needs a fully understood result.",
     observe=["ExpSerde::serialize_into", "ExpSerde::deserialize_from"])
prop("P29", "Kernel parameters carry each array element in and out at its own place",
     "For a function marked #[kernel], the compiled kernel hands the function every input array with each element at the row-major position of the declared shape, takes every output element back from the same position, and declares for each parameter its total length, its shape and whether it is input, output or both. call_kernel! passes the handles in the order written, replaces exactly those marked mut by the handle at their own position, and returns the call's result. This holds for any number of parameters, depth of nesting, array sizes (computed ones included) and mix of directions.",
     ["inputs", "configurations"], "every value of every element, for the parameter kinds, depths (0 to 4) and sizes in the witness kernels",
     "A transposed or shifted element gives a valid circuit for another computation; the tests use square or one-dimensional parameters and do not build offline.",
     [MC], [("kernel", MC), ("generate_unflatten_code", MC), ("generate_flatten_code", MC), ("call_kernel", MC)],
     "abstract interpretation over the MIR of witness kernels expanded by the repository's macro; element positions are compared with the row-major ones", DK, observe=["#[kernel]", "call_kernel!"])
prop("P30", "A memorized function computes what the function does, under a key of its own",
     "Calling memorized_f gives the caller exactly the outputs f gives on the same arguments, in the same nesting, and f is run with the caller's variables and numbers. Two calls share the cached sub-circuit only if they are calls of the same function with the same numbers and the same nesting lengths; different functions, numbers or nesting lengths have different keys. The recorded structure of the result is that of the function's own result.",
     ["inputs", "history"], "every argument of the witnessed signatures (variables, nested vectors up to depth 3, numbers of all types, references, no result); every pair of witnessed calls",
     "A wrong cache hit needs two particular calls in one circuit; it silently proves another computation, and no test calls two memorized functions of one signature.",
     [MC], [("memorized", MC), ("analyze_type_structure", MC), ("JoinVecVariables / RebuildVecVariables / HashStructureAndPrimitive", "compiler/expander_compiler/src/frontend/sub_circuit.rs")],
     "abstract interpretation over the MIR of witness functions expanded by the repository's macro; keys are compared as the sequence of everything hashed", DK, observe=["#[memorized]"])


CG = "rust/jstprove_circuits/src/circuit_functions/gadgets/"
CQ = "rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs"
CL = "compiler/circuit-std-rs/src/logup.rs"
CK = ("Hints are supplied by the prover and constrained by nothing but the emitted constraints; ring operations of the builder are modelled, BN254's modulus is assumed. Widths, divisors, shifts and operand counts are "
      "enumerated, the values are symbolic. An alarm needs a witness: inputs for which the honest hints break a constraint or give a wrong output, or forged hints that pass with a wrong output.")
prop("P31", "A range check admits exactly the values of its range",
     "A range check of n bits, 1 to 128, passes for every value in [0, 2^n) and for no other field element, whatever the chunk size of the lookup table, and other widths are refused. The final lookup equation holds for queries that are all rows of the table, with the multiplicities the hint counts, and except with negligible probability over the challenge for no others. The hints give the prover the digits and multiplicities that satisfy the constraints.",
     ["inputs", "adversary", "configurations"], "every field element and every choice of hint values by the prover, for widths up to 128 and chunks of 1 to 16 bits",
     "Every comparison, division and activation of a proved model rests on range checks; tests show that valid values pass, never that no invalid one does.",
     [CG + "range_check.rs", CL, "rust/jstprove_circuits/src/circuit_functions/hints/bits.rs"],
     [("LogUpRangeProofTable::rangeproof", CL), ("LogUpSingleKeyTable::final_check", CL), ("range_check", CG + "range_check.rs")],
     "abstract interpretation over MIR into constraint systems over canonical polynomials; elimination lemmas (digits, shifted double lookup, log-derivative identity) against the specified range", CK,
     observe=["range_check", "range_check_pow2_unsigned", "rangeproof", "final_check"])
prop("P32", "Rescaling and division round down and leave the prover no choice",
     "Rescaling a product by 2^k, and dividing by a positive constant, give the floor of the signed quotient, for every value the specified shift admits; with relu fused the negative quotients become zero. For such a value no other quotient or remainder satisfies the constraints, and values outside the admitted interval have no satisfying assignment. A divisor of zero is refused and division by one costs nothing.",
     ["inputs", "adversary", "configurations"], "every input value and every choice of hint values, for the enumerated scale exponents (1 to 31), shifts and divisors",
     "Every fixed-point product in a proof is rescaled; tests run honest provers on a few values, so an ambiguous quotient is never seen.",
     [CQ, CG + "euclidean_division.rs"], [("rescale", CQ), ("div_pos_integer_constant", CG + "euclidean_division.rs")],
     "abstract interpretation over MIR into constraint systems over canonical polynomials; Euclidean division with bounded remainder and quotient is unique (lemma), compared with floor division", CK,
     observe=["rescale", "rescale_array", "div_pos_integer_constant"])
prop("P33", "Max, min, clip and ReLU gadgets force the true extremum",
     "The constrained maximum and minimum of any number of values, the clamp to a lower and an upper bound (either may be missing) and ReLU give the mathematically right value on signed inputs whose differences fit the specified width, also when values coincide. No other output satisfies the constraints, whatever hints the prover supplies. An operand list that is empty is refused.",
     ["inputs", "adversary"], "every input value and every choice of hint values, for 1 to 9 operands and three widths",
     "A prover that may choose a non-maximal element proves wrong classifications; tests only check honest witnesses.",
     [CG + "max_min_clip.rs", "rust/jstprove_circuits/src/circuit_functions/hints/max_min_clip.rs"], [("constrained_max", CG + "max_min_clip.rs"), ("constrained_clip", CG + "max_min_clip.rs"), ("ShiftRangeContext", CG + "max_min_clip.rs")],
     "abstract interpretation over MIR into constraint systems over canonical polynomials; lemmas for selection by sign and for the vanishing product of range-checked differences", CK,
     observe=["constrained_max", "constrained_min", "constrained_clip", "constrained_relu"])


CY = "rust/jstprove_circuits/src/circuit_functions/layers/"
prop("P34", "Matrix gadgets constrain the product, sum and difference they claim",
     "Matrix product, sum, difference and element-wise product in the circuit are those of the operands, for every value, with the stated shape rules. A product supplied as a hint is accepted exactly when it is the true product, except with negligible probability over the random vector, for every number of repetitions from one. Operands whose dimensions do not fit, or zero repetitions, are refused.",
     ["inputs", "adversary"], "every matrix entry and every claimed product, for the enumerated dimensions up to 4",
     "A false product passes a random check only if a bug makes the check degenerate; honest tests never supply one.",
     [CG + "linear_algebra.rs", "rust/jstprove_circuits/src/circuit_functions/hints/matmul.rs"], [("freivalds_verify_matrix_product", CG + "linear_algebra.rs"), ("matrix_multiplication", CG + "linear_algebra.rs")],
     "abstract interpretation over MIR into constraint systems over canonical polynomials; an equation that holds for random challenges is split into its coefficients (lemma), compared with the product", CK,
     observe=["matrix_multiplication", "freivalds_verify_matrix_product", "matrix_addition", "matrix_subtraction", "matrix_hadamard_product"])
prop("P35", "Function tables and the decomposed exponential bind the output to the function",
     "A lookup in a function table forces the output to be the table's value at the input, for signed and unsigned domains, and no input outside the domain satisfies the constraints. The decomposed exponential forces the output the specified decomposition gives, whatever hints the prover supplies. Converting between signed integers and field elements is exact on the representable range and saturates beyond it.",
     ["inputs", "adversary"], "every input and every choice of hint values, for the enumerated table widths, scales and functions",
     "A table that admits a second output lets a prover forge activations; tests run only honest provers.",
     [CG + "function_lookup.rs", "rust/jstprove_circuits/src/circuit_functions/hints/mod.rs"], [("FunctionLookupTable", CG + "function_lookup.rs"), ("DecomposedExpLookup", CG + "function_lookup.rs"), ("field_to_i64", "rust/jstprove_circuits/src/circuit_functions/hints/mod.rs")],
     "abstract interpretation over MIR into constraint systems with table rows as facts; lemmas for contiguous tables, Euclidean division and table bounds, compared with the function", CK,
     observe=["FunctionLookupTable", "DecomposedExpLookup", "i64_to_field", "field_to_i64"])
prop("P36", "Layers that move data put every element where ONNX puts it",
     "Transpose, Concat, Reshape, Flatten, Squeeze, Unsqueeze, Tile, Expand, Slice, Split, Gather, Pad, Identity and numeric Cast give outputs of the described shape in which each element is the input element ONNX prescribes, also for negative axes, negative indices and attribute defaults. Element values are never changed. Attributes that are out of range, repeated or unsupported are refused, not misread.",
     ["inputs", "configurations"], "every element value, for the enumerated shapes, attributes and ways of supplying them",
     "A permuted index on an unsampled attribute combination proves another model; tests cover few combinations.",
     [CY, "rust/jstprove_circuits/src/circuit_functions/utils/shaping.rs"], [("LayerOp::build / apply", CY + "layer_ops.rs"), ("build_index_map", CY + "slice.rs")],
     "abstract interpretation over MIR of build and apply with opaque elements; positions of the outputs compared with the reference index map", CK,
     observe=["LayerOp::build", "LayerOp::apply", "LayerOp::apply_multi"])


prop("P37", "Elementwise layers force the exact quantised result",
     "Add, Sub, Mul, Neg, BatchNormalization, Div by constants, Relu, LeakyRelu, Max, Min, Clip, Equal, Less, Greater, And, Not and Where constrain each output element to one function of the signed quantised inputs under ONNX broadcasting (products rescaled by flooring division, fused Relu included), whatever values the prover supplies as hints. The honest witness satisfies the constraints for all inputs within the layer's bit width. Shapes that do not broadcast and divisors that are not constants in [1, 2^32) are refused.",
     ["inputs", "configurations", "histories"], "every element value and every choice of hint values, for the enumerated shapes, widths, scales, fusions and ways of supplying constants",
     "A comparison or rescaling that is right on sampled positives can be wrong for negative values or leave a hint free, which no honest run shows.",
     [CY, "rust/jstprove_circuits/src/circuit_functions/utils/tensor_ops.rs", "rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs"],
     [("LayerOp::build / apply", CY + "layer_ops.rs"), ("constrained_max_2 and clip", "rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs"), ("maybe_rescale", "rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs")],
     "abstract interpretation over MIR; elimination of hint values from the emitted constraint system by lemmas, normal forms of outputs and input ranges compared with the specification", CK,
     observe=["LayerOp::build", "LayerOp::apply"])

prop("P38", "Linear, pooling and reduction layers force the exact quantised result",
     "Gemm, MatMul, Conv, MaxPool, AveragePool, GlobalAveragePool, ReduceSum, ReduceMean and ReduceMax constrain each output element to the stated sum of products (rescaled by flooring division when asked, fused Relu included), extremum or mean (rounded to the nearest integer, halves up; AveragePool and GlobalAveragePool of values that are not negative) over exactly the elements that ONNX attributes, axes, strides, pads and dilations select, whatever values the prover supplies as hints. The honest witness satisfies the constraints for all inputs within the layer's bit width, negative ones included. Attributes the layers do not implement and shapes that do not match are refused.",
     ["inputs", "configurations", "histories"], "every element value and every choice of hint values, for the enumerated shapes, attributes, widths, scales, fusions and ways of supplying weights and axes",
     "A window off by one shows only for some strides and pads, a mean only for negative lanes, and a free hint in no honest run.",
     [CY, "rust/jstprove_circuits/src/circuit_functions/gadgets/linear_algebra.rs", "rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs"],
     [("LayerOp::build / apply", CY + "conv.rs"), ("matrix_multiplication and matrix_addition", "rust/jstprove_circuits/src/circuit_functions/gadgets/linear_algebra.rs"), ("collect_reduction_inputs", CY + "reduce_sum.rs")],
     "abstract interpretation over MIR; elimination of hint values from the emitted constraint system by lemmas, normal forms of outputs and input ranges compared with the specification", CK,
     observe=["LayerOp::build", "LayerOp::apply"])

prop("P39", "Selection, scattering, resizing and constant layers force the ONNX result",
     "TopK, GatherElements, ScatterND, ConvTranspose, Resize (nearest and linear), Shape, Range and ConstantOfShape constrain each output element to exactly the element, constant, or (for ConvTranspose and linear Resize) integer combination of elements that the ONNX definition selects for the given shapes, axes, indices and attributes, whatever values the prover supplies as hints. TopK returns the K largest elements of a lane in descending order with their distinct positions, the lower position first among equals. The honest witness satisfies the constraints for all inputs in the layer's range, and indices out of range, unsupported attributes and mismatched shapes are refused.",
     ["inputs", "configurations", "histories"], "every element value and every choice of hint values, for the enumerated shapes, indices, attributes, widths and ways of supplying indices, sizes and scales",
     "A forged index or a duplicate selection appears in no honest run, and coordinate rounding differs only for some size ratios.",
     [CY, "rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs"],
     [("LayerOp::build / apply", CY + "topk.rs"), ("LayerOp::build / apply", CY + "scatter_nd.rs"), ("LayerOp::build / apply", CY + "resize.rs")],
     "abstract interpretation over MIR; elimination of hint values from the emitted constraint system by lemmas, normal forms of outputs and input ranges compared with the specification", CK,
     observe=["LayerOp::build", "LayerOp::apply"])


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)), None))
    NA.append((id, reason))


na("P90", "No efficient prover convinces the verifier of a false statement",
   "For a circuit and public input without a satisfying witness, no efficient adversary produces a proof that the verifier accepts, except with probability negligible in the field and hash parameters.",
   ["inputs"], "every adversary, circuit and public input",
   "Tests can only try particular forgeries.", ["prover/gkr/src/", "prover/transcript/src/", "prover/poly_commit/src/"], [("GKR protocol with Fiat-Shamir", "prover/gkr/src/verifier/snark.rs")],
   "A probabilistic, computational claim about all adversaries and about hash and commitment assumptions: no analysis of the source decides it. The part that is in the source (which conditions the verifier checks, in which order challenges depend on what) is P25 and P26.")
na("P91", "The quantised circuit's outputs approximate the float model's outputs",
   "For every input in the model's domain the dequantised outputs of the proved circuit differ from the outputs of the original ONNX model by at most the error the chosen scale implies.",
   ["inputs"], "every model and every input in its domain",
   "Tests compare a few sample inputs.", ["rust/jstprove_onnx/src/quantizer.rs", "rust/jstprove_circuits/src/circuit_functions/"], [("rescaling after every product", "rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs")],
   "The error grows with the weights and depth of the particular model, quantities of the run that no static argument over the source bounds. The exact parts are claimed: weights (P20), folding (P21), widths (P22) and the meaning of the circuit gadgets.")
na("P92", "Proving and verifying stay within time and memory that grow with the circuit",
   "Proving takes time and memory quasi-linear in the circuit size, and verification time is polylogarithmic in it apart from reading public inputs.",
   ["inputs", "configurations"], "every circuit size and process count",
   "Tests run small circuits only.", ["prover/gkr/src/", "prover/sumcheck/src/"], [("sumcheck prover", "prover/sumcheck/src/")],
   "Running time and memory are runtime quantities; a static cost bound would have to cover rayon, SIMD back ends and MPI, which are not installed.")
