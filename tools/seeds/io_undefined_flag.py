PROPERTY = "P03"
NEEDS = "a reader of the documented layout other than this code base; in-tree round trips still work; payload above 64 KiB"
BREAKS = "the flag word of large artifacts also carries bit 1, which the layout does not define"
EDITS = [("rust/jstprove_io/src/envelope.rs", "let flags: u32 = if compressed { FLAG_ZSTD } else { 0 };", "let mut flags: u32 = if compressed { FLAG_ZSTD } else { 0 };\n    if payload.len() > u16::MAX as usize {\n        flags |= FLAG_LARGE;\n    }"),
 ("rust/jstprove_io/src/envelope.rs", "const FLAG_ZSTD: u32 = 1;", "const FLAG_ZSTD: u32 = 1;\nconst FLAG_LARGE: u32 = 2;")]
DEMO = r'''
fn main() {
    let mut bad = 0;
    for n in [3usize, 300, 70_000, 200_000] {
        let v: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let b = jstprove_io::serialize_to_bytes(&v, false).unwrap();
        let flags = u32::from_le_bytes(b[4..8].try_into().unwrap());
        if flags != 0 { println!("{n}: flags {flags:#x}"); bad = 1; }
    }
    std::process::exit(bad);
}
'''
