PROPERTY = "P05"
NEEDS = "a sink that fails only when the last buffered bytes are flushed (full disk), uncompressed"
BREAKS = "finishing a plain writer drops the buffered writer instead of flushing it, so the final write error is swallowed"
EDITS = [("rust/jstprove_io/src/compress.rs", "            Self::Plain(mut w) => w.flush(),\n        }\n    }\n}", "            Self::Plain(w) => {\n                drop(w);\n                Ok(())\n            }\n        }\n    }\n}")]
DEMO = r'''
use std::io::Write;
fn main() {
    let mut bad = 0;
    for compress in [false, true] {
        let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
        let mut w = jstprove_io::compressed_writer(f, compress).unwrap();
        w.write_all(&[7u8; 1000]).unwrap();
        if w.finish().is_ok() { println!("compress={compress}: finish on a full device reported success"); bad = 1; }
    }
    std::process::exit(bad);
}
'''
