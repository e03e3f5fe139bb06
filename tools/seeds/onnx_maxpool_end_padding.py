PROPERTY = "P24"
NEEDS = "a max pooling padded at the end only"
BREAKS = "the padding of a max pooling is looked for at the beginnings only, so one that pads at the end is accepted and its output size leaves the padding out"
EDITS = [("rust/jstprove_onnx/src/layer_params.rs", ".map(|p| p.iter().any(|&v| v != 0))", ".map(|p| p.iter().take(p.len() / 2).any(|&v| v != 0))")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
use jstprove_onnx::layer_params::MaxPoolParams;
fn main() {
    for p in [[0i64, 0, 0, 0], [1, 1, 1, 1], [0, 0, 1, 1], [0, 0, 0, 1]] {
        let m = model(vec![node("MaxPool", &["x"], &["y"], &[("kernel_shape", AttrValue::Ints(vec![2, 2])), ("pads", AttrValue::Ints(p.to_vec()))])],
            vec![], vec![io("x", &[1, 1, 4, 5])], &["y"]);
        let g = LayerGraph::from_parsed(&m).unwrap();
        let want = ((4 + p[0] + p[2] - 1) as usize, (5 + p[1] + p[3] - 1) as usize);
        if let Ok(q) = MaxPoolParams::from_layer(&g.layers[0], 4, 5) {
            if (q.pool_oh, q.pool_ow) != want { println!("{p:?}: {} x {} for {want:?}", q.pool_oh, q.pool_ow); std::process::exit(1); }
        }
    }
}
'''
