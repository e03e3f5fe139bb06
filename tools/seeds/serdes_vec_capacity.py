PROPERTY = "P28"
NEEDS = "a serialised vector whose declared length is far beyond the bytes that follow"
BREAKS = "the vector is allocated by its declared length before any element is read: a hostile length stops the reader instead of being an error"
EDITS = [("prover/serdes/src/serdes.rs", """        let mut v = Self::default();
        let len = usize::deserialize_from(&mut reader)?;
        for _ in 0..len {
            v.push""", """        let len = usize::deserialize_from(&mut reader)?;
        let mut v = Self::with_capacity(len);
        for _ in 0..len {
            v.push""")]
PRE = r'''mkdir -p "$d/serdes" "$d/ethnum/src" "$d/halo2curves/src"
cp -r "$repo/prover/serdes/src" "$d/serdes/src"
cp "$here/ethnum_lib.rs" "$d/ethnum/src/lib.rs"
cp "$here/halo2curves_lib.rs" "$d/halo2curves/src/lib.rs"
for n in ethnum halo2curves serdes; do printf '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n' $n > "$d/$n/Cargo.toml"; done
cat >> "$d/serdes/Cargo.toml" <<E
[dependencies]
thiserror = "2"
ethnum = { path = "../ethnum" }
halo2curves = { path = "../halo2curves" }
serdes_derive = { path = "$repo/prover/serdes_derive" }
E
'''
DEPS = 'serdes = { path = "serdes" }'
FILES = {"ethnum_lib.rs": """
pub struct U256(pub [u8; 32]);
impl U256 {
    pub fn to_le_bytes(&self) -> [u8; 32] { self.0 }
    pub fn from_le_bytes(b: [u8; 32]) -> Self { U256(b) }
}
""", "halo2curves_lib.rs": """
pub struct CtOption<T>(Option<T>);
impl<T> CtOption<T> { pub fn into_option(self) -> Option<T> { self.0 } }
impl<T> From<CtOption<T>> for Option<T> { fn from(x: CtOption<T>) -> Self { x.0 } }
pub mod group {
    pub trait GroupEncoding: Sized {
        type Repr: Default + AsRef<[u8]> + AsMut<[u8]>;
        fn from_bytes(b: &Self::Repr) -> super::CtOption<Self>;
        fn to_bytes(&self) -> Self::Repr;
    }
}
pub mod bn256 {
    use super::{group::GroupEncoding, CtOption};
    pub struct Fr([u8; 32]);
    impl Fr {
        pub fn to_bytes(&self) -> [u8; 32] { self.0 }
        pub fn from_bytes(b: &[u8; 32]) -> CtOption<Fr> { CtOption(Some(Fr(*b))) }
    }
    pub struct B<const N: usize>([u8; N]);
    impl<const N: usize> Default for B<N> { fn default() -> Self { B([0; N]) } }
    impl<const N: usize> AsRef<[u8]> for B<N> { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl<const N: usize> AsMut<[u8]> for B<N> { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
    pub struct G1Affine([u8; 32]);
    pub struct G2Affine([u8; 64]);
    impl GroupEncoding for G1Affine { type Repr = B<32>; fn from_bytes(b: &B<32>) -> CtOption<Self> { CtOption(Some(G1Affine(b.0))) } fn to_bytes(&self) -> B<32> { B(self.0) } }
    impl GroupEncoding for G2Affine { type Repr = B<64>; fn from_bytes(b: &B<64>) -> CtOption<Self> { CtOption(Some(G2Affine(b.0))) } fn to_bytes(&self) -> B<64> { B(self.0) } }
}
"""}
DEMO = r'''
use serdes::ExpSerde;
fn main() {
    let v = vec![1u64, 2, 3];
    let mut b = vec![];
    v.serialize_into(&mut b).unwrap();
    assert_eq!(Vec::<u64>::deserialize_from(&b[..]).unwrap(), v);
    for len in [4u64, 1 << 61, u64::MAX] {
        b[..8].copy_from_slice(&len.to_le_bytes());
        let c = b.clone();
        let r = std::panic::catch_unwind(move || Vec::<u64>::deserialize_from(&c[..]).is_err());
        if !matches!(r, Ok(true)) { println!("length {len}: {r:?}"); std::process::exit(1); }
    }
}
'''
