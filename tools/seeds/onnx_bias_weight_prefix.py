PROPERTY = "P18"
NEEDS = "two initializers of which one's name starts with the other's and is listed first (w10 before w1)"
BREAKS = "the weight of a convolution is looked up by name prefix, so the added bias takes another weight's channel count"
EDITS = [("rust/jstprove_onnx/src/compat.rs", "            .find(|i| i.name.as_deref() == Some(weight_name));", "            .find(|i| i.name.as_deref().is_some_and(|n| n.starts_with(weight_name.as_str())));")]
DEPS = ONNXDEPS
DEMO = r'''
use jstprove_onnx::{GraphProto, ModelProto, NodeProto, TensorProto, compat::add_zero_bias_to_conv};
use prost::Message;
fn main() {
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let t = |n: &str, o: i64| TensorProto { name: Some(n.into()), dims: vec![o, 1, 1, 1], data_type: Some(1), float_data: vec![1.0; o as usize], ..Default::default() };
    for names in [["w1", "w10"], ["w10", "w1"]] {
        let initializer: Vec<_> = names.iter().map(|n| t(n, if *n == "w1" { 3 } else { 5 })).collect();
        let node = ["w1", "w10"].iter().map(|w| NodeProto { op_type: Some("Conv".into()), name: Some(format!("c_{w}")), input: vec!["x".into(), w.to_string()], output: vec![format!("y_{w}")], ..Default::default() }).collect();
        let m = ModelProto { graph: Some(GraphProto { node, initializer, ..Default::default() }), ..Default::default() };
        std::fs::write(d.join("i.onnx"), m.encode_to_vec()).unwrap();
        add_zero_bias_to_conv(&d.join("i.onnx"), &d.join("o.onnx")).unwrap();
        let g = ModelProto::decode(std::fs::read(d.join("o.onnx")).unwrap().as_slice()).unwrap().graph.unwrap();
        for n in &g.node {
            let b = g.initializer.iter().find(|t| t.name.as_ref() == Some(&n.input[2])).unwrap();
            let want = if n.input[1] == "w1" { 3 } else { 5 };
            if b.dims != vec![want] { println!("{names:?}: bias of {} has {:?} values", n.input[1], b.dims); std::process::exit(1); }
        }
    }
}
'''
