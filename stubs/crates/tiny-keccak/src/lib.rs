pub trait Hasher { fn update(&mut self, input: &[u8]); fn finalize(self, output: &mut [u8]); }
#[derive(Clone)] pub struct Keccak(Vec<u8>);
impl Keccak { pub fn v256() -> Self { Keccak(vec![]) } pub fn v512() -> Self { Keccak(vec![]) } }
impl Hasher for Keccak { fn update(&mut self, i: &[u8]) { self.0.extend_from_slice(i) } fn finalize(self, o: &mut [u8]) { unimplemented!("{}", o.len()) } }
#[derive(Clone)] pub struct Sha3(Vec<u8>);
impl Sha3 { pub fn v256() -> Self { Sha3(vec![]) } }
impl Hasher for Sha3 { fn update(&mut self, i: &[u8]) { self.0.extend_from_slice(i) } fn finalize(self, o: &mut [u8]) { unimplemented!("{}", o.len()) } }
