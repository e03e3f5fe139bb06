PROPERTY = "P10"
NEEDS = "two operands whose sizes on one axis are different, neither is 1, and one is a multiple of the other"
BREAKS = "operands that do not broadcast are accepted when one size is a multiple of the other"
EDITS = [("rust/jstprove_onnx/src/shape_inference.rs", "} else if db == 1 {\n            result.push(da);", "} else if db == 1 || (db > 1 && da % db == 0) {\n            result.push(da);")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
fn main() {
    for (a, b, want) in [(vec![2, 3], vec![3], Some(vec![2, 3])), (vec![4, 1], vec![5], Some(vec![4, 5])), (vec![2, 6], vec![3], None), (vec![3], vec![2, 6], None), (vec![8, 4], vec![4, 4], None)] {
        let m = model(vec![node("Add", &["a", "b"], &["y"], &[])], vec![], vec![io("a", &a), io("b", &b)], &["y"]);
        check(&format!("Add {a:?} {b:?}"), shape(&m, "y"), want);
    }
}
'''
