PROPERTY = "P02"
NEEDS = "an envelope followed by further bytes in the same buffer"
BREAKS = "the byte decoder takes everything after the header as payload when the length fits, so bytes following the envelope break decoding"
EDITS = [("rust/jstprove_io/src/lib.rs", "            let payload = &data[ENVELOPE_HEADER_LEN..][..len];", "            let payload = &data[data.len() - len.max(remaining)..];")]
DEMO = r'''
fn main() {
    let v = vec![1u32, 2, 3];
    let mut b = jstprove_io::serialize_to_bytes(&v, false).unwrap();
    assert_eq!(jstprove_io::deserialize_from_bytes::<Vec<u32>>(&b).unwrap(), v);
    b.extend_from_slice(b"next record");
    let r = jstprove_io::deserialize_from_bytes::<Vec<u32>>(&b);
    std::process::exit(i32::from(r.ok() != Some(v)));
}
'''
