PROPERTY = "P21"
NEEDS = "a batch normalisation whose variance is small or zero in some channel"
BREAKS = "the folded multiplier is taken from the variance clamped to epsilon instead of variance plus epsilon"
EDITS = [("rust/jstprove_onnx/src/quantizer.rs", "let v = var[i] + epsilon;", "let v = var[i].max(epsilon);")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
use jstprove_onnx::quantizer::{quantize_model, ScaleConfig};
fn main() {
    let m = model(vec![node("BatchNormalization", &["x", "s", "b", "m", "v"], &["y"], &[("epsilon", AttrValue::Float(0.25))])],
        vec![ten("s", &[2], &[], &[1.0, 3.0]), ten("b", &[2], &[], &[0.5, 1.0]), ten("m", &[2], &[], &[2.0, 1.0]), ten("v", &[2], &[], &[0.75, 2.0])],
        vec![io("x", &[1, 2, 2, 2])], &["y"]);
    let g = LayerGraph::from_parsed(&m).unwrap();
    let q = quantize_model(g, &ScaleConfig::new(2, 4)).unwrap();
    let l = q.graph.layers.iter().find(|l| l.outputs[0] == "y").unwrap();
    check("inputs", l.inputs.len(), 3);
    check("mul", l.weights[&l.inputs[1]].int_data.clone(), vec![16, 32]);
}
'''
