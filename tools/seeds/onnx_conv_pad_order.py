PROPERTY = "P24"
NEEDS = "a convolution whose end padding differs between its two spatial dimensions"
BREAKS = "the parameters of a convolution pair its paddings per dimension although the attribute lists all beginnings first, so the padded width and the padded height are wrong"
EDITS = [("rust/jstprove_onnx/src/layer_params.rs", "let [pad_top, pad_left, pad_bottom, pad_right] = pad_values", "let [pad_top, pad_bottom, pad_left, pad_right] = pad_values")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
use jstprove_onnx::layer_params::ConvParams;
fn main() {
    for (t, l, b, r) in [(1i64, 1i64, 1i64, 1i64), (0, 0, 1, 0), (0, 1, 0, 0), (2, 1, 1, 0)] {
        let m = model(vec![node("Conv", &["x", "w"], &["y"], &[("pads", AttrValue::Ints(vec![t, l, b, r]))])],
            vec![ten("w", &[1, 1, 2, 2], &[], &[1.0, 2.0, 3.0, 4.0])], vec![io("x", &[1, 1, 4, 5])], &["y"]);
        let g = LayerGraph::from_parsed(&m).unwrap();
        let p = ConvParams::from_layer(&g.layers[0], 1, 4, 5).unwrap();
        let want = ((4 + t + b - 1) as usize, (5 + l + r - 1) as usize);
        if (p.out_h, p.out_w) != want { println!("{t} {l} {b} {r}: {} x {} for {want:?}", p.out_h, p.out_w); std::process::exit(1); }
    }
}
'''
