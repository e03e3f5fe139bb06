PROPERTY = "P23"
NEEDS = "a one-dimensional pooling with padding at the end, followed by a sum over its output"
BREAKS = "the quantiser reads the end padding of the first spatial dimension from the position it has for two dimensions, so a one-dimensional pooling loses it and the sum's range check is too narrow"
EDITS = [("rust/jstprove_onnx/src/quantizer.rs", "let pe = pads.get(spatial_dims + i).copied().unwrap_or(0);\n                            let d = dil", "let pe = pads.get(2 + i).copied().unwrap_or(0);\n                            let d = dil")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
use jstprove_onnx::quantizer::{quantize_model, ScaleConfig};
fn main() {
    for (n, p) in [(4i64, 0i64), (4, 1), (2, 1), (2, 3)] {
        let m = model(vec![node("MaxPool", &["x"], &["a"], &[("kernel_shape", AttrValue::Ints(vec![2])), ("pads", AttrValue::Ints(vec![0, p]))]), node("ReduceSum", &["a"], &["t"], &[]), node("Mul", &["t", "t"], &["y"], &[])],
            vec![], vec![io("x", &[1, 1, n])], &["y"]);
        let g = LayerGraph::from_parsed(&m).unwrap();
        let q = quantize_model(g, &ScaleConfig::new(2, 4)).unwrap();
        let bits = q.graph.layers.iter().find(|l| l.outputs[0] == "y").unwrap().n_bits.unwrap();
        let most = (n + p - 1).pow(2) * 16;
        if 1i64 << (bits - 1) < most { println!("{n} {p}: {bits} bits for {most}"); std::process::exit(1); }
    }
}
'''
