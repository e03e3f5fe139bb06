PROPERTY = "P22"
NEEDS = "a product of two computed tensors that can both exceed 1 in magnitude"
BREAKS = "the bound of such a product uses the larger operand instead of the product of both, so its range check is too narrow"
EDITS = [("rust/jstprove_onnx/src/quantizer.rs", "                    bound = m_in * m_b * k;\n                }\n            }\n        }\n\n        // Similarly", "                    bound = m_in.max(m_b) * k;\n                }\n            }\n        }\n\n        // Similarly")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
use jstprove_onnx::quantizer::{quantize_model, ScaleConfig};
fn main() {
    for k in [2u64, 4] {
        let m = model(vec![node("Add", &["x", "x"], &["a"], &[]), node("MatMul", &["a", "a"], &["y"], &[])], vec![], vec![io("x", &[1, k as i64, k as i64])], &["y"]);
        let g = LayerGraph::from_parsed(&m).unwrap();
        let q = quantize_model(g, &ScaleConfig::new(2, 4)).unwrap();
        let bits = q.graph.layers.iter().find(|l| l.outputs[0] == "y").unwrap().n_bits.unwrap();
        if 1u64 << (bits - 1) < 16 * 2 * 2 * k { println!("{k}: {bits} bits"); std::process::exit(1); }
    }
}
'''
