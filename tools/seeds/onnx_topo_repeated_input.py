PROPERTY = "P15"
NEEDS = "a layer that uses the same produced tensor twice, such as a square written as Mul(a, a)"
BREAKS = "edges are recorded once per pair of layers but in-degrees once per use, so the layer is never released and a valid graph is refused as cyclic"
EDITS = [("rust/jstprove_onnx/src/graph.rs", "                    adj[dep_idx].push(idx);", "                    if adj[dep_idx].last() != Some(&idx) {\n                        adj[dep_idx].push(idx);\n                    }")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
fn main() {
    for (l, r) in [("a", "x"), ("x", "a"), ("a", "a")] {
        let m = model(vec![node("Mul", &[l, r], &["y"], &[]), node("Relu", &["x"], &["a"], &[])], vec![], vec![io("x", &[1, 2])], &["y"]);
        check(&format!("Mul({l}, {r})"), LayerGraph::from_parsed(&m).ok().map(|g| g.topo_order), Some(vec![1, 0]));
    }
}
'''
