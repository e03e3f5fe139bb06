PROPERTY = "P11"
NEEDS = "a Transpose whose permutation is not its own inverse (a cycle of three or more axes)"
BREAKS = "the permutation is applied in the inverse direction"
EDITS = [("rust/jstprove_onnx/src/shape_inference.rs", "let out_shape: Vec<usize> = perm.iter().map(|&p| input_shape[p]).collect();", "let mut out_shape = input_shape.to_vec();\n    for (i, &p) in perm.iter().enumerate() {\n        out_shape[p] = input_shape[i];\n    }")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
fn main() {
    for (p, want) in [(vec![0, 1, 2, 3], vec![2, 3, 5, 7]), (vec![1, 0, 2, 3], vec![3, 2, 5, 7]), (vec![3, 2, 1, 0], vec![7, 5, 3, 2]), (vec![0, 2, 3, 1], vec![2, 5, 7, 3])] {
        let m = model(vec![node("Transpose", &["x"], &["y"], &[("perm", ints(&p))])], vec![], vec![io("x", &[2, 3, 5, 7])], &["y"]);
        check(&format!("Transpose {p:?}"), shape(&m, "y"), Some(want));
    }
}
'''
