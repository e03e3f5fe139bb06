PROPERTY = "P07"
NEEDS = "a bundle whose verification key exists but cannot be read (here a directory in its place)"
BREAKS = "every failure to read the verification key is reported as `no key`, so a corrupt or unreadable key silently disappears"
EDITS = [("rust/jstprove_io/src/bundle.rs", """                .is_some_and(|io| io.kind() == std::io::ErrorKind::NotFound)
            {
                None
            } else {
                return Err(e);
            }""", """                .is_some_and(|io| io.kind() != std::io::ErrorKind::PermissionDenied)
            {
                None
            } else {
                return Err(e);
            }""")]
DEMO = r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap()).join("bundle");
    jstprove_io::bundle::write_bundle::<u8>(&d, &[1, 2], &[3], None, None, false).unwrap();
    assert!(jstprove_io::bundle::read_bundle::<u8>(&d).unwrap().vk.is_none());
    std::fs::create_dir(d.join("vk.bin")).unwrap();
    let bad = match jstprove_io::bundle::read_bundle::<u8>(&d) {
        Ok(b) => { println!("unreadable key read as {:?}", b.vk); 1 }
        Err(_) => 0,
    };
    std::process::exit(bad);
}
'''
