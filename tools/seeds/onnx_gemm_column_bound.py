PROPERTY = "P22"
NEEDS = "a Gemm weight with more columns than rows, whose heavy column lies beyond the number of rows"
BREAKS = "only the first columns of a wide weight count for the bound, so the range check is too narrow for the others"
EDITS = [("rust/jstprove_onnx/src/quantizer.rs", "(0..cols)\n                        .map(|c| (0..rows)", "(0..rows.min(cols))\n                        .map(|c| (0..rows)")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
use jstprove_onnx::quantizer::{quantize_model, ScaleConfig};
fn main() {
    for (rows, cols) in [(2usize, 2usize), (2, 3), (3, 2)] {
        let mut w = vec![0.5; rows * cols];
        for r in 0..rows { w[r * cols + cols - 1] = 100.0; }
        let m = model(vec![node("Gemm", &["x", "w"], &["y"], &[])],
            vec![ten("w", &[rows as i64, cols as i64], &[], &w)], vec![io("x", &[1, rows as i64])], &["y"]);
        let g = LayerGraph::from_parsed(&m).unwrap();
        let q = quantize_model(g, &ScaleConfig::new(2, 4)).unwrap();
        let bits = q.graph.layers.iter().find(|l| l.outputs[0] == "y").unwrap().n_bits.unwrap();
        let reach = 16.0 * 100.0 * rows as f64;
        if ((1u64 << (bits - 1)) as f64) < reach { println!("{rows}x{cols}: {bits} bits for magnitude {reach}"); std::process::exit(1); }
    }
}
'''
