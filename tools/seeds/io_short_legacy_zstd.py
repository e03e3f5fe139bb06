PROPERTY = "P04"
NEEDS = "a legacy zstd artifact whose whole frame is shorter than an envelope header, read from a byte buffer"
BREAKS = "the byte decoder treats any input that cannot hold an envelope header as raw MessagePack, so tiny legacy zstd frames no longer decode"
EDITS = [("rust/jstprove_io/src/lib.rs", "        DetectedFormat::LegacyZstd => {\n            let decompressed = decompress_bytes(data)?;", "        DetectedFormat::LegacyZstd if data.len() > ENVELOPE_HEADER_LEN => {\n            let decompressed = decompress_bytes(data)?;"),
 ("rust/jstprove_io/src/lib.rs", "        DetectedFormat::RawMsgpack => Ok(rmp_serde::from_slice(data)?),", "        _ => Ok(rmp_serde::from_slice(data)?),")]
DEMO = r'''
fn main() {
    let mut fails = 0;
    for n in [0u32, 7, 300, 70000] {
        let raw = rmp_serde::to_vec_named(&n).unwrap();
        let z = zstd::encode_all(raw.as_slice(), 3).unwrap();
        match jstprove_io::deserialize_from_bytes::<u32>(&z) {
            Ok(m) if m == n => {}
            r => { println!("{n}: {} bytes: {:?}", z.len(), r.map_err(|e| e.to_string())); fails = 1; }
        }
    }
    std::process::exit(fails);
}
'''
