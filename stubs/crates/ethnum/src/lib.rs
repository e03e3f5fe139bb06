use std::ops::*;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct U256(pub [u128; 2]);
pub type u256 = U256;
impl U256 {
    pub const ZERO: U256 = U256([0, 0]);
    pub const ONE: U256 = U256([1, 0]);
    pub const MAX: U256 = U256([u128::MAX, u128::MAX]);
    pub const BITS: u32 = 256;
    pub const fn into_words(self) -> (u128, u128) { (self.0[1], self.0[0]) }
    pub const fn new(v: u128) -> Self { U256([v, 0]) }
    pub const fn from_words(hi: u128, lo: u128) -> Self { U256([lo, hi]) }
    pub fn from_le_bytes(b: [u8; 32]) -> Self { let mut a = [0u8; 16]; a.copy_from_slice(&b[..16]); let mut c = [0u8; 16]; c.copy_from_slice(&b[16..]); U256([u128::from_le_bytes(a), u128::from_le_bytes(c)]) }
    pub fn to_le_bytes(self) -> [u8; 32] { let mut o = [0; 32]; o[..16].copy_from_slice(&self.0[0].to_le_bytes()); o[16..].copy_from_slice(&self.0[1].to_le_bytes()); o }
    pub fn to_be_bytes(self) -> [u8; 32] { let mut o = self.to_le_bytes(); o.reverse(); o }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self { b.reverse(); Self::from_le_bytes(b) }
    pub fn from_str_radix(_s: &str, _r: u32) -> Result<Self, std::num::ParseIntError> { unimplemented!() }
    pub fn from_str_hex(_s: &str) -> Result<Self, std::num::ParseIntError> { unimplemented!() }
    pub const fn as_u8(self) -> u8 { self.0[0] as u8 }
    pub const fn as_u32(self) -> u32 { self.0[0] as u32 }
    pub const fn as_u64(self) -> u64 { self.0[0] as u64 }
    pub const fn as_u128(self) -> u128 { self.0[0] }
    pub const fn as_usize(self) -> usize { self.0[0] as usize }
    pub const fn low(&self) -> &u128 { &self.0[0] }
    pub const fn high(&self) -> &u128 { &self.0[1] }
    pub fn pow(self, _e: u32) -> Self { unimplemented!() }
    pub fn leading_zeros(self) -> u32 { unimplemented!() }
    pub fn trailing_zeros(self) -> u32 { unimplemented!() }
}
macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(x: $t) -> Self { U256([x as u128, 0]) } } impl PartialEq<$t> for U256 { fn eq(&self, o: &$t) -> bool { *self == U256::from(*o) } })* } }
from!(bool, u8, u16, u32, u64, u128);
macro_rules! tryf { ($($t:ty),*) => { $(impl TryFrom<U256> for $t { type Error = std::num::TryFromIntError; fn try_from(x: U256) -> Result<Self, Self::Error> { <$t>::try_from(x.0[0]) } })* } }
tryf!(u8, u16, u32, u64, usize, i64, i32);
macro_rules! ops { ($($t:ident $f:ident $a:ident $g:ident),*) => { $(
    impl $t for U256 { type Output = U256; fn $f(self, o: U256) -> U256 { unimplemented!("{o:?}") } }
    impl<'a> $t<&'a U256> for U256 { type Output = U256; fn $f(self, o: &U256) -> U256 { unimplemented!("{o:?}") } }
    impl $t<u128> for U256 { type Output = U256; fn $f(self, o: u128) -> U256 { unimplemented!("{o:?}") } }
    impl $a for U256 { fn $g(&mut self, o: U256) { unimplemented!("{o:?}") } }
    impl $a<u128> for U256 { fn $g(&mut self, o: u128) { unimplemented!("{o:?}") } } )* } }
ops!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign,
     BitAnd bitand BitAndAssign bitand_assign, BitOr bitor BitOrAssign bitor_assign, BitXor bitxor BitXorAssign bitxor_assign);
macro_rules! sh { ($($t:ty),*) => { $(impl Shr<$t> for U256 { type Output = U256; fn shr(self, o: $t) -> U256 { unimplemented!("{o:?}") } } impl Shl<$t> for U256 { type Output = U256; fn shl(self, o: $t) -> U256 { unimplemented!("{o:?}") } }
    impl ShrAssign<$t> for U256 { fn shr_assign(&mut self, o: $t) { unimplemented!("{o:?}") } } impl ShlAssign<$t> for U256 { fn shl_assign(&mut self, o: $t) { unimplemented!("{o:?}") } })* } }
sh!(i32, u32, usize, u64, U256);
impl Not for U256 { type Output = U256; fn not(self) -> U256 { U256([!self.0[0], !self.0[1]]) } }
impl std::fmt::Display for U256 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
impl std::str::FromStr for U256 { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { unimplemented!() } }
