PROPERTY = "P09"
NEEDS = "a MaxPool whose begin and end pads on the last axis differ, so that pairing them by position instead of by axis gives another size"
BREAKS = "the ONNX pads layout (all begins, then all ends) is read as begin/end pairs per axis"
EDITS = [("rust/jstprove_onnx/src/shape_inference.rs", "let pad = pads[i] + pads[spatial_dims + i];\n        let padded = in_dim + pad;\n        if strides[i] == 0 {\n            bail!(\n                \"layer {}: MaxPool", "let pad = pads[2 * i] + pads[2 * i + 1];\n        let padded = in_dim + pad;\n        if strides[i] == 0 {\n            bail!(\n                \"layer {}: MaxPool")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
fn main() {
    for (k, p, want) in [([2, 2], [0, 0, 0, 0], vec![1, 3, 7, 9]), ([3, 3], [1, 1, 1, 1], vec![1, 3, 8, 10]), ([3, 3], [0, 1, 2, 1], vec![1, 3, 8, 10])] {
        let m = model(vec![node("MaxPool", &["x"], &["y"], &[("kernel_shape", ints(&k)), ("strides", ints(&[1, 1])), ("pads", ints(&p))])], vec![], vec![io("x", &[1, 3, 8, 10])], &["y"]);
        check(&format!("MaxPool {k:?} {p:?}"), shape(&m, "y"), Some(want));
    }
}
'''
