PROPERTY = "P27"
NEEDS = "a stream whose variant index exceeds 65535 and whose low 16 bits name a variant"
BREAKS = "the derived reader narrows the variant index to 16 bits before matching, so an index no variant has is read as a variant"
EDITS = [("prover/serdes_derive/src/lib.rs", "                    let variant_index: u32 = ::serdes::ExpSerde::deserialize_from(&mut reader)?;\n                    match variant_index as usize {",
"                    let variant_index: u32 = ::serdes::ExpSerde::deserialize_from(&mut reader)?;\n                    // enums have far fewer than 2^16 variants\n                    match usize::from(variant_index as u16) {")]
PRE = SERDESPRE
DEPS = SERDESDEPS
FILES = {"serdes_lib.rs": SERDESLIB}
DEMO = r'''
use serdes::ExpSerde as _;
use serdes_derive::ExpSerde;
#[derive(ExpSerde, Debug, PartialEq)]
enum Kind { A, B(u64), C { x: u8, y: u32 } }
fn main() {
    let mut fails = 0;
    for k in [Kind::A, Kind::B(1 << 40), Kind::C { x: 7, y: 9 }] {
        let mut b = vec![];
        k.serialize_into(&mut b).unwrap();
        if Kind::deserialize_from(&b[..]).unwrap() != k { println!("{k:?} changes"); fails += 1; }
        for hi in [1u8, 128] {
            let mut c = b.clone();
            c[2] = hi;
            if let Ok(x) = Kind::deserialize_from(&c[..]) { println!("unknown index read as {x:?}"); fails += 1; }
        }
    }
    std::process::exit(fails);
}
'''
