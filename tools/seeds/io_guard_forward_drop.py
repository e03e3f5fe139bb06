PROPERTY = "P06"
NEEDS = "a bundle write that fails after the directory was created (here: metadata whose serialisation fails)"
BREAKS = "the cleanup guard removes in creation order, so the directory is still populated when it is removed and stays behind"
EDITS = [("rust/jstprove_io/src/bundle.rs", "for p in self.paths.iter().rev() {", "for p in &self.paths {")]
DEMO = r'''
struct Bad;
impl serde::Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}
fn main() {
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap()).join("bundle");
    let r = jstprove_io::bundle::write_bundle(&d, &[1, 2], &[3], Some(Bad), None, false);
    assert!(r.is_err());
    std::process::exit(i32::from(d.exists()));
}
'''
