PROPERTY = "P16"
NEEDS = "a model that uses one unsupported operator several times with a different unsupported operator in between"
BREAKS = "a repeated unsupported operator is suppressed only when it is the one reported last"
EDITS = [("rust/jstprove_onnx/src/compat.rs", "            if !unsupported.contains(&op.to_string()) {", "            if unsupported.last().map(String::as_str) != Some(op) {")]
DEPS = ONNXDEPS
DEMO = r'''
use jstprove_onnx::compat::is_compatible;
use jstprove_onnx::{GraphProto, ModelProto, NodeProto};
use prost::Message;
fn main() {
    let f = std::path::Path::new(&std::env::var("SCRATCH").unwrap()).join("m.onnx");
    for (ops, want) in [(vec!["LSTM", "LSTM"], vec!["LSTM"]), (vec!["Relu", "Einsum", "LSTM"], vec!["Einsum", "LSTM"]), (vec!["LSTM", "Einsum", "LSTM"], vec!["LSTM", "Einsum"])] {
        let node = ops.iter().map(|o| NodeProto { op_type: Some(o.to_string()), ..Default::default() }).collect();
        let m = ModelProto { graph: Some(GraphProto { node, ..Default::default() }), ..Default::default() };
        std::fs::write(&f, m.encode_to_vec()).unwrap();
        let got = is_compatible(&f).unwrap();
        if got.1 != want { println!("{ops:?}: {got:?}"); std::process::exit(1); }
    }
}
'''
