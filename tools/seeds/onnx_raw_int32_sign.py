PROPERTY = "P17"
NEEDS = "a 32-bit integer tensor stored as raw data that holds a negative value (for instance a negative axis or slice start)"
BREAKS = "32-bit raw integers are read without their sign"
EDITS = [("rust/jstprove_onnx/src/parser.rs", "i32::from_le_bytes(chunk.try_into().unwrap()) as i64", "u32::from_le_bytes(chunk.try_into().unwrap()) as i64")]
DEPS = ONNXDEPS
DEMO = r'''
use jstprove_onnx::parser::parse_onnx;
use jstprove_onnx::{GraphProto, ModelProto, TensorProto};
use prost::Message;
fn main() {
    let f = std::path::Path::new(&std::env::var("SCRATCH").unwrap()).join("m.onnx");
    for v in [vec![0i32, 7], vec![i32::MAX], vec![3, -1, i32::MIN]] {
        let t = TensorProto { name: Some("t".into()), dims: vec![v.len() as i64], data_type: Some(6), raw_data: Some(v.iter().flat_map(|x| x.to_le_bytes()).collect()), ..Default::default() };
        let m = ModelProto { graph: Some(GraphProto { initializer: vec![t], ..Default::default() }), ..Default::default() };
        std::fs::write(&f, m.encode_to_vec()).unwrap();
        let got = parse_onnx(&f).unwrap().initializers["t"].int_data.clone();
        if got != v.iter().map(|x| *x as i64).collect::<Vec<_>>() { println!("{v:?}: {got:?}"); std::process::exit(1); }
    }
}
'''
