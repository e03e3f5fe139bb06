PROPERTY = "P08"
NEEDS = "an envelope whose declared payload length is within 20 of the largest 64-bit integer"
BREAKS = "the length check adds the header length to the declared payload length; with overflow the addition panics (debug) or wraps past the check (release)"
EDITS = [("rust/jstprove_io/src/lib.rs", "            let remaining = data.len().saturating_sub(ENVELOPE_HEADER_LEN);\n            if remaining < len {", "            let remaining = data.len().saturating_sub(ENVELOPE_HEADER_LEN);\n            if data.len() < ENVELOPE_HEADER_LEN + len {")]
DEMO = r'''
fn main() {
    let mut b = jstprove_io::serialize_to_bytes(&vec![1u32, 2, 3], false).unwrap();
    b[8..16].copy_from_slice(&(u64::MAX - 5).to_le_bytes());
    let r = std::panic::catch_unwind(|| jstprove_io::deserialize_from_bytes::<Vec<u32>>(&b).is_err());
    std::process::exit(i32::from(r.ok() != Some(true)));
}
'''
