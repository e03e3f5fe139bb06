PROPERTY = "P27"
NEEDS = "a writer that fails while a field of a struct-like variant is being written"
BREAKS = "the derived writer of struct-like variants stops at the first field that cannot be written but reports success"
EDITS = [("prover/serdes_derive/src/lib.rs", """                                (#idx as u32).serialize_into(&mut writer)?;
                                #(
                                    #field_idents.serialize_into(&mut writer)?;
                                )*
                            }
                        });
                        let deser_fields = field_idents.iter().map(|ident|""", """                                (#idx as u32).serialize_into(&mut writer)?;
                                let _complete = true #(
                                    && #field_idents.serialize_into(&mut writer).is_ok()
                                )*;
                            }
                        });
                        let deser_fields = field_idents.iter().map(|ident|""")]
PRE = SERDESPRE
DEPS = SERDESDEPS
FILES = {"serdes_lib.rs": SERDESLIB}
DEMO = r'''
use serdes::ExpSerde as _;
use serdes_derive::ExpSerde;
#[derive(ExpSerde, Debug, PartialEq)]
enum Kind { A, B(u64), C { x: u8, y: u32 } }
fn main() {
    let mut fails = 0;
    for k in [Kind::A, Kind::B(1 << 40), Kind::C { x: 7, y: 9 }] {
        let mut b = vec![];
        k.serialize_into(&mut b).unwrap();
        if Kind::deserialize_from(&b[..]).unwrap() != k { println!("{k:?} changes"); fails += 1; }
        for n in 0..b.len() {
            let mut short = vec![0u8; n];
            if k.serialize_into(&mut short[..]).is_ok() { println!("{k:?}: success although only {n} of {} bytes fit", b.len()); fails += 1; }
        }
    }
    std::process::exit(fails.min(100));
}
'''
