PROPERTY = "P23"
NEEDS = "a Slice whose step does not divide the selected range, followed by a sum over the slice"
BREAKS = "the quantiser counts one element too few in such a slice, so the sum's range check is too narrow"
EDITS = [("rust/jstprove_onnx/src/quantizer.rs", "out[ax] = ((len + step - 1) / step).max(0) as usize;", "out[ax] = (len / step).max(i64::from(len > 0)) as usize;")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
use jstprove_onnx::quantizer::{quantize_model, ScaleConfig};
fn main() {
    for (n, step) in [(8i64, 2i64), (9, 2), (9, 4), (17, 16), (33, 8)] {
        let m = model(vec![node("Slice", &["x", "b", "e", "ax", "st"], &["a"], &[]), node("ReduceSum", &["a"], &["t"], &[]), node("Mul", &["t", "t"], &["y"], &[])],
            vec![ten("b", &[1], &[0], &[]), ten("e", &[1], &[i64::MAX], &[]), ten("ax", &[1], &[-1], &[]), ten("st", &[1], &[step], &[])], vec![io("x", &[1, 1, n])], &["y"]);
        let g = LayerGraph::from_parsed(&m).unwrap();
        let q = quantize_model(g, &ScaleConfig::new(2, 4)).unwrap();
        let bits = q.graph.layers.iter().find(|l| l.outputs[0] == "y").unwrap().n_bits.unwrap();
        let most = ((n + step - 1) / step).pow(2) * 16;
        if 1i64 << (bits - 1) < most { println!("{n} {step}: {bits} bits for {most}"); std::process::exit(1); }
    }
}
'''
