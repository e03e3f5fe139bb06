PROPERTY = "P20"
NEEDS = "a negative weight whose scaled value lies exactly half-way between two integers"
BREAKS = "half-way weights are rounded up instead of away from zero, so the quantised weights are not those of the reference"
EDITS = [("rust/jstprove_onnx/src/quantizer.rs", "(*v * factor as f64).round() as i64", "(*v * factor as f64 + 0.5).floor() as i64")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
use jstprove_onnx::quantizer::{quantize_model, ScaleConfig};
fn main() {
    let m = model(vec![node("Conv", &["x", "w"], &["y"], &[("kernel_shape", ints(&[1, 1]))])],
        vec![ten("w", &[4, 1, 1, 1], &[], &[0.25, -0.375, -0.125, 0.625])], vec![io("x", &[1, 1, 2, 2])], &["y"]);
    let g = LayerGraph::from_parsed(&m).unwrap();
    let q = quantize_model(g, &ScaleConfig::new(2, 2)).unwrap();
    let l = q.graph.layers.iter().find(|l| l.outputs[0] == "y").unwrap();
    check("weights", l.weights["w"].int_data.clone(), vec![1, -2, -1, 3]);
}
'''
