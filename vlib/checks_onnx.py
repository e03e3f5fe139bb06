"""Properties of jstprove_onnx decided by constant-structure abstract interpretation."""
import fw, harness
from terms import *
import scrun
from onnxscen import *

TRUST = ("rustc's MIR (nightly-2025-03-27), the models of std containers, iterators, strings, floats and anyhow in vlib/models.py and vlib/conc.py, "
         "and the specification written in the scenario; integer arithmetic is assumed not to exceed the type's range")


def shape_check(pid, families, rule, floor):
    import sc_shape
    c = fw.Check(pid, rule)
    prog = harness.program(CRATE)
    for p in ("graph::LayerGraph::from_parsed", "shape_inference::infer_all_shapes"):
        if (CRATE, p) not in prog.fns:
            c.missing(p)
    jobs = [(f"{fam}: {label}", scrun.shape_job(b)) for fam in families for label, b in sc_shape.SC[fam]]
    scrun.run(c, jobs, harness.where(prog, CRATE, "shape_inference::infer_all_shapes"))
    c.need("scenarios", len(jobs), floor)
    return c.finish("other", TRUST)


R = ("constant-structure abstract interpretation of graph construction and shape inference over MIR: for each model skeleton (operator, ranks, attributes "
     "present) with every dimension, attribute and tensor value abstract, the result derived on each trace partition must be the value number the ONNX "
     "rule prescribes, and no reachable index, unwrap, division or subtraction may panic")


def P09():
    return shape_check("P09", ["conv"], R, 45)


def P10():
    return shape_check("P10", ["bcast"], R, 60)


def P11():
    return shape_check("P11", ["reshape"], R, 60)


def P12():
    return shape_check("P12", ["index"], R, 80)


def P13():
    return shape_check("P13", ["flow"], R, 40)


def run_family(pid, rule, jobs, anchor, floor, fns=()):
    c = fw.Check(pid, rule)
    prog = harness.program(CRATE)
    for p in (anchor,) + tuple(fns):
        if (CRATE, p) not in prog.fns:
            c.missing(p)
    scrun.run(c, jobs, harness.where(prog, CRATE, anchor))
    c.need("scenarios", len(jobs), floor)
    return c.finish("other", TRUST)


def P15():
    import sc_graph
    return run_family("P15", "constant-structure abstract interpretation of graph construction over MIR with abstract tensor names: on every aliasing partition of producers and "
                      "consumers the computed order lists every layer once, after its producers, and exactly the cyclic partitions are refused",
                      sc_graph.TOPO, "graph::LayerGraph::from_parsed", 15)


def P14():
    import sc_graph
    return run_family("P14", "constant-structure abstract interpretation of graph construction and attribute access over MIR: every field of every layer, the input and output names and "
                      "the input shapes must be the value numbers taken from the parsed model",
                      sc_graph.FID, "graph::LayerGraph::from_parsed", 15)


def P16():
    import sc_ops
    return run_family("P16", "constant propagation through the operator tables over MIR, for every operator name the code mentions: the name selects the operator ONNX gives it, the operator's "
                      "rescale flag, scale plan and element-rearranging class are the specified ones, unknown names are refused, and the compatibility check reports exactly the named operators "
                      "that are not on its list, each of which graph construction accepts",
                      sc_ops.OPS + sc_ops.COMPAT, "graph::OpType::from_str", 140, ("ops::get_scale_plan", "compat::is_compatible", "graph::OpType::is_shape_only"))


def P17():
    import sc_parse
    return run_family("P17", "constant-structure abstract interpretation of the model parser over MIR with the decoded protobuf message as abstract input: every name, dimension, value and attribute "
                      "of the parsed model must be the value number of the corresponding field (little-endian words of the raw bytes, the typed array the element type selects), and every "
                      "tensor whose values cannot be read must make the result an error",
                      sc_parse.PARSE, "parser::parse_onnx", 60)


def P18():
    import sc_ops
    return run_family("P18", "constant-structure abstract interpretation of add_zero_bias_to_conv over MIR: on every path that reports success the value handed to the encoder is the input model with, "
                      "for every two-input convolution with a weight initializer, one fresh zero tensor of its output channels and element size appended to the initializers and the node's inputs",
                      sc_ops.BIAS, "compat::add_zero_bias_to_conv", 8)


QT = "constant-structure abstract interpretation of the quantiser over MIR: "


def P19():
    import sc_quant
    return run_family("P19", QT + "on every trace the exponent, scale and verdict must be the value numbers of the capacity formula applied to the field width and to the largest accumulator "
                      "bound of the graph", sc_quant.SCALE + sc_quant.PREC, "quantizer::quantize_model_for_precision", 70,
                      ("quantizer::ScaleConfig::for_precision", "quantizer::ScaleConfig::max_safe_exponent", "quantizer::ScaleConfig::adaptive", "quantizer::compute_max_bound"))


def P20():
    import sc_quant
    return run_family("P20", QT + "every weight of every layer of the quantised model must be the value number round(w * alpha^k) with k from the operator's scale plan, or the tensor untouched, "
                      "and operators, inputs, outputs, attributes and scale must be those of the input graph (a power of one half becoming a square root)",
                      sc_quant.WEIGHT + sc_quant.PIPE, "quantizer::quantize_model", 24)


def P21():
    import sc_quant
    return run_family("P21", QT + "the two folded parameters of every batch normalisation must be the value numbers scale/sqrt(var+eps) and bias - mean*that, quantised at alpha and alpha^2, and "
                      "exactly the foldable parameter sets are accepted", sc_quant.FOLD, "quantizer::quantize_model", 12)


def P22():
    import sc_quant
    return run_family("P22", QT + "the bit width recorded for every rescaling or range-checking layer must be the value number of the width its magnitude bound needs, the bound following the operator's "
                      "rule from the bounds of its operands; an alarm needs a valuation on which the recorded width is missing or too small", sc_quant.BOUND + sc_quant.OBS,
                      "quantizer::quantize_model", 150, ("quantizer::QuantizedModel::apply_observed_n_bits",))


def P23():
    import sc_qshape
    return run_family("P23", QT + "for every shape-inference scenario with a batch of one the traced shape of every output must be the value number the ONNX rule gives it",
                      sc_qshape.QS, "quantizer::quantize_model", 400)


def P24():
    import sc_params
    return run_family("P24", "constant-structure abstract interpretation of the layer parameter readers over MIR: for each layer form with abstract weight dimensions, attributes and input sizes every "
                      "field of the parameters must be the value number the ONNX rule gives it, and exactly the forms the parameters can express are accepted",
                      sc_params.PARAMS, "layer_params::ConvParams::from_layer", 90,
                      tuple(f"layer_params::{t}::from_layer" for t in ("GemmParams", "MaxPoolParams", "BatchNormParams", "AddSubParams")))
