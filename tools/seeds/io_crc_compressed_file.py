PROPERTY = "P01"
NEEDS = "a compressed envelope read through the file entry point whose recorded checksum does not match its payload"
BREAKS = "the file decoder skips the CRC comparison for compressed payloads, assuming the zstd frame protects itself (frames are written without a content checksum)"
EDITS = [("rust/jstprove_io/src/lib.rs", "            envelope::verify_crc_computed(crc_state.get(), header.crc32)?;\n            Ok(result)",
"            if !header.compressed {\n                envelope::verify_crc_computed(crc_state.get(), header.crc32)?;\n            }\n            Ok(result)")]
DEMO = r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let v: Vec<u32> = (0..500).collect();
    let p = d.join("a.bin");
    let mut fails = 0;
    for compress in [false, true] {
        let mut b = jstprove_io::serialize_to_bytes(&v, compress).unwrap();
        b[16] ^= 1;
        std::fs::write(&p, &b).unwrap();
        if jstprove_io::deserialize_from_file::<Vec<u32>>(&p).is_ok() {
            println!("compress={compress}: wrong checksum accepted");
            fails += 1;
        }
    }
    std::process::exit(fails);
}
'''
