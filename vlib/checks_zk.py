"""Properties of the proving system and of the circuits, decided over MIR of crates type-checked against stand-ins for the
external dependencies that are not installed (see /verif/stubs)."""
import extract, fw
import scrun
from terms import *

TRUST = ("rustc's MIR of the repository's own crates, type-checked against stand-ins (/verif/stubs) for external crates that are not installed; the models of std, of field arithmetic (a "
         "commutative ring of characteristic 0 in which the constants divided by are invertible), of transcripts (a challenge is an opaque function of everything absorbed before) and of decoding; "
         "and the specification written in the scenario")


def family(pid, rule, which, jobs, anchor, floor):
    c = fw.Check(pid, rule)
    c.stubbed = True
    try:
        import gint
        prog = gint.program(which)
    except extract.ExtractError as e:
        c.und("extraction", "", "the sources cannot be type-checked here: " + str(e)[-600:])
        return c.finish("other", TRUST)
    f = prog.fns.get((gint.WS, anchor))
    where = f"{f['span'][0]}:{f['span'][1]} fn {anchor}" if f else anchor
    scrun.run(c, jobs, where, machine=lambda: gint.GMachine(prog))
    c.need("scenarios", len(jobs), floor)
    return c.finish("other", TRUST)


G = ("abstract interpretation over MIR with field elements as canonical polynomials (value numbering), transcripts as histories and proofs as sequences of opaque items: for each small circuit, "
     "scheme, process and lane count, ")


def P25():
    import sc_gkr
    return family("P25", G + "the condition under which the verifier accepts must be the conjunction of the protocol's conditions", "gkr", sc_gkr.VERDICT + sc_gkr.SQUARE,
                  "gkr::verifier::snark::Verifier::<Cfg>::verify", 180)


def P26():
    import sc_gkr
    return family("P26", G + "and for each position at which the proof ends early or cannot be decoded, the verdict must be false on every path and no path may stop", "gkr", sc_gkr.REJECT,
                  "gkr::verifier::snark::Verifier::<Cfg>::verify", 25)


DV = ("abstract interpretation over the MIR of programs expanded by the repository's own procedural macro (a writer is the list of items written, a reader the list of items to come): ")


def P27():
    import sc_derive
    return family("P27", DV + "each derived implementation must write the fields in order, read them back and report every failure", "derive", sc_derive.DERIVED,
                  "prover/serdes_derive/src/lib.rs fn serdes_derive", 70)


def P28():
    import sc_serdes
    return family("P28", "abstract interpretation over MIR with byte streams of opaque bytes: for each type, length and position of a fault, the bytes written, the value read back and the reported errors "
                  "are compared with the format", "derive", sc_serdes.SERDES, "prover/serdes/src/serdes.rs", 150)


def P29():
    import sc_macros
    return family("P29", DV + "the data each parameter of a kernel carries in and out must be that of the declared array, row by row", "derive", sc_macros.KERNELS + sc_macros.CALLS,
                  "compiler/expander_compiler/macros/src/lib.rs fn kernel / call_kernel", 16)


def P30():
    import sc_macros
    return family("P30", DV + "a memorized function must do what the function does, under a key of its own", "derive", sc_macros.MEMO,
                  "compiler/expander_compiler/macros/src/lib.rs fn memorized", 20)


CS = ("abstract interpretation over MIR with the circuit builder as a list of constraints over canonical polynomials; the constraint system each gadget emits is normalised by elimination lemmas and compared "
      "with the specified function and input ranges: ")


def P31():
    import sc_circ
    return family("P31", CS + "a range check admits exactly the values of the range, and the lookup equation is the log-derivative identity of queries and rows", "circuits", sc_circ.RANGE,
                  sc_circ.RCM, 280)


def P32():
    import sc_circ
    return family("P32", CS + "the result is the floor of the quotient and nothing else satisfies the constraints", "circuits", sc_circ.DIVIDE,
                  sc_circ.CP + "utils::quantization::rescale", 70)


def P33():
    import sc_circ
    return family("P33", CS + "the result is the extremum and nothing else satisfies the constraints", "circuits", sc_circ.EXTREME,
                  sc_circ.GD + "max_min_clip::constrained_max", 50)


def P34():
    import sc_layer
    return family("P34", CS + "results are the matrix operation, and a claimed product passes only if it is the product", "circuits", sc_layer.MATRIX,
                  "jstprove_circuits::circuit_functions::gadgets::linear_algebra::matrix_multiplication", 60)


def P35():
    import sc_layer
    return family("P35", CS + "the output is the function's value at the input and nothing else satisfies the constraints", "circuits", sc_layer.LOOKUP,
                  "jstprove_circuits::circuit_functions::gadgets::function_lookup::FunctionLookupTable::query", 70)


def P36():
    import sc_layers
    return family("P36", "abstract interpretation over MIR of each layer's build and apply with opaque elements: the shape and the origin of each output element are compared with the reference, and attributes "
                  "that have no meaning must be refused", "circuits", sc_layers.MOVE, sc_layers.method("Reshape", "apply"), 180)


def P37():
    import sc_arith
    return family("P37", "abstract interpretation over MIR of each layer's build and apply: the constraints the layer emits are solved for the outputs, which must be exactly the integer function of the inputs, "
                  "and the range restrictions on the inputs must be exactly the stated ones", "circuits", sc_arith.ARITH, sc_arith.method("Add", "apply"), 300)


def P38():
    import sc_arith
    import sc_linear
    return family("P38", "abstract interpretation over MIR of each layer's build and apply: the constraints the layer emits are solved for the outputs, which must be exactly the stated sum, extremum or rounded mean "
                  "of the right elements, and the range restrictions on the inputs must be exactly the stated ones", "circuits", sc_linear.LIN, sc_arith.method("Conv", "apply"), 430)


def P39():
    import sc_arith
    import sc_index
    import sc_resize
    return family("P39", "abstract interpretation over MIR of each layer's build and apply: the constraints the layer emits are solved for the outputs, which must be exactly the elements (or integer combinations of elements) "
                  "that the ONNX definition selects, and the range restrictions on the inputs must be exactly the stated ones", "circuits", sc_index.IDX + sc_resize.RSZ, sc_arith.method("TopK", "apply"), 600)
