PROPERTY = "P13"
NEEDS = "a Reshape whose target is sliced out of a Shape with a negative end"
BREAKS = "constant folding of Slice does not count a negative end from the end of the axis"
EDITS = [("rust/jstprove_onnx/src/shape_inference.rs", "    if end < 0 {\n        end += dim;\n    }", "    if end < -dim {\n        end += dim;\n    }")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
fn main() {
    for (s, e) in [(0, 2), (0, -1), (-3, 2)] {
        let n = vec![
            node("Shape", &["x"], &["s"], &[]),
            node("Slice", &["s", "st", "en"], &["h"], &[]),
            node("Concat", &["h", "m"], &["t"], &[("axis", AttrValue::Int(0))]),
            node("Reshape", &["x", "t"], &["y"], &[]),
        ];
        let m = model(n, vec![ten("st", &[1], &[s], &[]), ten("en", &[1], &[e], &[]), ten("m", &[1], &[-1], &[])], vec![io("x", &[2, 3, 5])], &["y"]);
        check(&format!("Shape[{s}:{e}] + [-1]"), shape(&m, "y"), Some(vec![2, 3, 5]));
    }
}
'''
