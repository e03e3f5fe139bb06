PROPERTY = "P14"
NEEDS = "a model file that lists a Constant node after the node that consumes it"
BREAKS = "the tensors of Constant nodes are collected in the same pass that builds the layers, so a consumer listed earlier in the file loses its weight"
EDITS = [("rust/jstprove_onnx/src/graph.rs", """        for node in &model.nodes {
            if node.op_type == "Constant" {
                if let Some(AttrValue::Tensor(td)) = node.attributes.get("value") {
                    for out_name in &node.outputs {
                        constant_outputs.insert(out_name.clone(), td.clone());
                    }
                }
            }
        }

""", ""), ("rust/jstprove_onnx/src/graph.rs", """            let op_type = OpType::from_str(&node.op_type)?;

            let mut weights""", """            let op_type = OpType::from_str(&node.op_type)?;

            if op_type == OpType::Constant {
                if let Some(AttrValue::Tensor(td)) = node.attributes.get("value") {
                    for out_name in &node.outputs {
                        constant_outputs.insert(out_name.clone(), td.clone());
                    }
                }
            }

            let mut weights""")]
DEPS = ONNXDEPS
DEMO = ONNXPRE + r'''
fn main() {
    let c = || node("Constant", &[], &["c"], &[("value", AttrValue::Tensor(ten("c", &[2], &[], &[1.0, 2.0]).1))]);
    let a = || node("Add", &["x", "c"], &["y"], &[]);
    for (what, nodes, at) in [("constant first", vec![c(), a()], 1), ("constant last", vec![a(), c()], 0)] {
        let g = LayerGraph::from_parsed(&model(nodes, vec![], vec![io("x", &[1, 2])], &["y"])).unwrap();
        check(what, g.layers[at].weights.get("c").map(|t| t.float_data.clone()), Some(vec![1.0, 2.0]));
    }
}
'''
