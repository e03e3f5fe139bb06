PROPERTY = "P12"
NEEDS = "a Split along a negative axis that is not the last one"
BREAKS = "the split sizes land on the wrong axis when the axis is negative"
EDITS = [("rust/jstprove_onnx/src/shape_inference.rs", "out_shape[axis] = sz;", "out_shape[axis_raw.rem_euclid(rank as i64 - i64::from(axis_raw < -1)) as usize] = sz;")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
fn main() {
    for (axis, a, b) in [(0, vec![1, 6, 4], vec![3, 6, 4]), (-1, vec![4, 6, 1], vec![4, 6, 3]), (-3, vec![1, 6, 4], vec![3, 6, 4])] {
        let m = model(vec![node("Split", &["x"], &["a", "b"], &[("axis", AttrValue::Int(axis)), ("split", ints(&[1, 3]))])], vec![], vec![io("x", &[4, 6, 4])], &["a", "b"]);
        check(&format!("Split axis {axis} first"), shape(&m, "a"), Some(a));
        check(&format!("Split axis {axis} second"), shape(&m, "b"), Some(b));
    }
}
'''
