//! Stand-in for the part of halo2curves the prover crates name (type checking only, no arithmetic).
#![allow(unused_variables)]
pub mod ff {
    use rand_core::RngCore;
    use std::fmt::Debug;
    use std::iter::{Product, Sum};
    use std::ops::*;
    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
    pub trait Field: Sized + Eq + Copy + Clone + Default + Send + Sync + Debug + 'static + ConditionallySelectable + ConstantTimeEq + Neg<Output = Self> + Add<Output = Self>
        + Sub<Output = Self> + Mul<Output = Self> + Sum + Product + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self>
        + for<'a> Sum<&'a Self> + for<'a> Product<&'a Self> + AddAssign + SubAssign + MulAssign + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
    {
        const ZERO: Self;
        const ONE: Self;
        fn random(rng: impl RngCore) -> Self;
        fn is_zero(&self) -> Choice { self.ct_eq(&Self::ZERO) }
        fn is_zero_vartime(&self) -> bool { self.is_zero().into() }
        fn square(&self) -> Self;
        fn cube(&self) -> Self { self.square() * self }
        fn double(&self) -> Self;
        fn invert(&self) -> CtOption<Self>;
        fn sqrt(&self) -> CtOption<Self> { unimplemented!() }
        fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self { unimplemented!() }
        fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self { unimplemented!() }
    }
    pub trait PrimeField: Field + From<u64> {
        type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
        fn from_u128(v: u128) -> Self { unimplemented!() }
        fn from_str_vartime(s: &str) -> Option<Self> { unimplemented!() }
        fn from_repr(repr: Self::Repr) -> CtOption<Self>;
        fn from_repr_vartime(repr: Self::Repr) -> Option<Self> { unimplemented!() }
        fn to_repr(&self) -> Self::Repr;
        fn is_odd(&self) -> Choice { unimplemented!() }
        const MODULUS: &'static str;
        const NUM_BITS: u32;
        const CAPACITY: u32;
        const TWO_INV: Self;
        const MULTIPLICATIVE_GENERATOR: Self;
        const S: u32;
        const ROOT_OF_UNITY: Self;
        const ROOT_OF_UNITY_INV: Self;
        const DELTA: Self;
    }
    pub trait FromUniformBytes<const N: usize>: PrimeField { fn from_uniform_bytes(bytes: &[u8; N]) -> Self; }
    pub trait PrimeFieldBits: PrimeField {}
    pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField { const ZETA: Self; }
}
pub mod group {
    use super::ff::PrimeField;
    use rand_core::RngCore;
    use std::fmt::Debug;
    use std::iter::Sum;
    use std::ops::*;
    use subtle::{Choice, CtOption};
    pub trait Group: Clone + Copy + Debug + Eq + Sized + Send + Sync + 'static + Sum + for<'a> Sum<&'a Self> + Neg<Output = Self> + Add<Output = Self> + Sub<Output = Self>
        + Mul<<Self as Group>::Scalar, Output = Self> + AddAssign + SubAssign + for<'a> Add<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> Mul<&'a <Self as Group>::Scalar, Output = Self>
        + MulAssign<<Self as Group>::Scalar> + for<'a> MulAssign<&'a <Self as Group>::Scalar> + for<'a> Sub<&'a Self, Output = Self> + for<'a> SubAssign<&'a Self>
    {
        type Scalar: PrimeField;
        fn random(rng: impl RngCore) -> Self;
        fn identity() -> Self;
        fn generator() -> Self;
        fn is_identity(&self) -> Choice;
        fn double(&self) -> Self;
    }
    pub trait Curve: Group + GroupOps<<Self as Curve>::AffineRepr> {
        type AffineRepr;
        fn batch_normalize(p: &[Self], q: &mut [Self::AffineRepr]);
        fn to_affine(&self) -> Self::AffineRepr;
    }
    pub trait GroupOps<Rhs = Self, Output = Self>: Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + AddAssign<Rhs> + SubAssign<Rhs> {}
    impl<T, R, O> GroupOps<R, O> for T where T: Add<R, Output = O> + Sub<R, Output = O> + AddAssign<R> + SubAssign<R> {}
    pub trait GroupEncoding: Sized { type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>; fn from_bytes(b: &Self::Repr) -> CtOption<Self>; fn from_bytes_unchecked(b: &Self::Repr) -> CtOption<Self>; fn to_bytes(&self) -> Self::Repr; }
    pub trait UncompressedEncoding: Sized {
        type Uncompressed: Default + AsRef<[u8]> + AsMut<[u8]>;
        fn from_uncompressed(b: &Self::Uncompressed) -> CtOption<Self>;
        fn from_uncompressed_unchecked(b: &Self::Uncompressed) -> CtOption<Self>;
        fn to_uncompressed(&self) -> Self::Uncompressed;
    }
    pub mod prime {
        use super::*;
        pub trait PrimeCurveAffine: Copy + Clone + Default + Send + Sync + 'static + PartialEq + Eq + std::fmt::Debug + Neg<Output = Self> + GroupEncoding
            + for<'a> Mul<&'a <Self as PrimeCurveAffine>::Scalar, Output = <Self as PrimeCurveAffine>::Curve> + Mul<<Self as PrimeCurveAffine>::Scalar, Output = <Self as PrimeCurveAffine>::Curve>
        {
            type Scalar: PrimeField;
            type Curve: Curve<AffineRepr = Self, Scalar = Self::Scalar> + From<Self>;
            fn identity() -> Self;
            fn generator() -> Self;
            fn is_identity(&self) -> Choice;
            fn to_curve(&self) -> Self::Curve;
        }
    }
    pub mod cofactor { pub trait CofactorCurveAffine {} }
    pub use super::ff;
}
pub mod serde {
    use std::io;
    pub trait SerdeObject: Sized {
        fn from_raw_bytes_unchecked(b: &[u8]) -> Self;
        fn from_raw_bytes(b: &[u8]) -> Option<Self>;
        fn to_raw_bytes(&self) -> Vec<u8>;
        fn read_raw_unchecked<R: io::Read>(r: &mut R) -> Self;
        fn read_raw<R: io::Read>(r: &mut R) -> io::Result<Self>;
        fn write_raw<W: io::Write>(&self, w: &mut W) -> io::Result<()>;
    }
}
pub trait CurveAffine: group::prime::PrimeCurveAffine<Scalar = <Self as CurveAffine>::ScalarExt, Curve = <Self as CurveAffine>::CurveExt>
    + std::ops::Add<Output = <Self as CurveAffine>::CurveExt> + std::ops::Sub<Output = <Self as CurveAffine>::CurveExt> + From<<Self as CurveAffine>::CurveExt>
{
    type ScalarExt: ff::PrimeField;
    type Base: ff::PrimeField;
    type CurveExt: group::Curve<AffineRepr = Self, Scalar = <Self as CurveAffine>::ScalarExt> + From<Self> + Default;
    fn coordinates(&self) -> subtle::CtOption<Coordinates<Self>>;
    fn from_xy(x: Self::Base, y: Self::Base) -> subtle::CtOption<Self>;
    fn is_on_curve(&self) -> subtle::Choice;
    fn a() -> Self::Base;
    fn b() -> Self::Base;
}
pub struct Coordinates<C: CurveAffine>(C::Base, C::Base);
impl<C: CurveAffine> Coordinates<C> { pub fn x(&self) -> &C::Base { &self.0 } pub fn y(&self) -> &C::Base { &self.1 } }
pub mod pairing {
    use super::ff::PrimeField;
    use super::group::{Curve, Group};
    use super::CurveAffine;
    use std::fmt::Debug;
    pub trait Engine: Sized + 'static + Clone + Sync + Send + Debug {
        type Fr: PrimeField;
        type G1: Group<Scalar = Self::Fr> + Curve<AffineRepr = Self::G1Affine> + From<Self::G1Affine> + std::ops::Mul<Self::Fr, Output = Self::G1> + Default;
        type G1Affine: CurveAffine<ScalarExt = Self::Fr, CurveExt = Self::G1> + From<Self::G1> + std::ops::Mul<Self::Fr, Output = Self::G1>;
        type G2: Group<Scalar = Self::Fr> + Curve<AffineRepr = Self::G2Affine> + From<Self::G2Affine> + std::ops::Mul<Self::Fr, Output = Self::G2> + Default;
        type G2Affine: CurveAffine<ScalarExt = Self::Fr, CurveExt = Self::G2> + From<Self::G2> + std::ops::Mul<Self::Fr, Output = Self::G2>;
        type Gt: Group<Scalar = Self::Fr>;
        fn pairing(p: &Self::G1Affine, q: &Self::G2Affine) -> Self::Gt;
    }
    pub trait MillerLoopResult: Clone { type Gt: Group; fn final_exponentiation(&self) -> Self::Gt; }
    pub trait MultiMillerLoop: Engine {
        type G2Prepared: Clone + Send + Sync + From<Self::G2Affine>;
        type Result: MillerLoopResult<Gt = Self::Gt>;
        fn multi_miller_loop(terms: &[(&Self::G1Affine, &Self::G2Prepared)]) -> Self::Result;
    }
}
pub mod msm {
    use super::CurveAffine;
    pub fn best_multiexp<C: CurveAffine>(c: &[C::ScalarExt], b: &[C]) -> C::CurveExt { unimplemented!() }
    pub fn msm_best<C: CurveAffine>(c: &[C::ScalarExt], b: &[C]) -> C::CurveExt { unimplemented!() }
    pub fn multiexp_precompute<C: CurveAffine>(b: &[C], w: usize) -> Vec<C::CurveExt> { unimplemented!() }
    pub fn multiexp_precompute_serial<C: CurveAffine>(c: &[C::ScalarExt], b: &[C::CurveExt], w: usize, acc: &mut C::CurveExt) { unimplemented!() }
    pub fn multiexp_serial<C: CurveAffine>(c: &[C::ScalarExt], b: &[C], acc: &mut C::CurveExt) { unimplemented!() }
}
pub mod bn256 {
    use super::*;
    use rand_core::RngCore;
    use std::ops::*;
    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
    #[repr(transparent)]
    pub struct Fr(pub [u64; 4]);
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Fq(pub [u64; 4]);
    macro_rules! arith { ($t:ty) => {
        arith!(@ $t, Add add AddAssign add_assign); arith!(@ $t, Sub sub SubAssign sub_assign);
        impl Neg for $t { type Output = $t; fn neg(self) -> $t { unimplemented!() } }
        impl<'a> Neg for &'a $t { type Output = $t; fn neg(self) -> $t { unimplemented!() } }
        impl std::iter::Sum for $t { fn sum<I: Iterator<Item = $t>>(i: I) -> $t { unimplemented!() } }
        impl<'a> std::iter::Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(i: I) -> $t { unimplemented!() } }
        impl ConstantTimeEq for $t { fn ct_eq(&self, o: &$t) -> Choice { unimplemented!() } }
        impl ConditionallySelectable for $t { fn conditional_select(a: &$t, b: &$t, c: Choice) -> $t { unimplemented!() } }
    }; (@ $t:ty, $T:ident $f:ident $A:ident $g:ident) => {
        impl $T for $t { type Output = $t; fn $f(self, o: $t) -> $t { unimplemented!() } }
        impl<'a> $T<&'a $t> for $t { type Output = $t; fn $f(self, o: &'a $t) -> $t { unimplemented!() } }
        impl<'a> $T<$t> for &'a $t { type Output = $t; fn $f(self, o: $t) -> $t { unimplemented!() } }
        impl<'a, 'b> $T<&'b $t> for &'a $t { type Output = $t; fn $f(self, o: &'b $t) -> $t { unimplemented!() } }
        impl $A for $t { fn $g(&mut self, o: $t) { unimplemented!() } }
        impl<'a> $A<&'a $t> for $t { fn $g(&mut self, o: &'a $t) { unimplemented!() } }
    } }
    macro_rules! field { ($t:ident) => {
        arith!($t); arith!(@ $t, Mul mul MulAssign mul_assign);
        impl std::iter::Product for $t { fn product<I: Iterator<Item = $t>>(i: I) -> $t { unimplemented!() } }
        impl<'a> std::iter::Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a $t>>(i: I) -> $t { unimplemented!() } }
        impl From<u64> for $t { fn from(x: u64) -> $t { unimplemented!() } }
        impl From<u32> for $t { fn from(x: u32) -> $t { unimplemented!() } }
        impl From<bool> for $t { fn from(x: bool) -> $t { unimplemented!() } }
        impl $t {
            pub const fn zero() -> Self { $t([0; 4]) }
            pub const fn one() -> Self { $t([1, 0, 0, 0]) }
            pub const fn from_raw(v: [u64; 4]) -> Self { $t(v) }
            pub fn from_bytes(b: &[u8; 32]) -> CtOption<Self> { unimplemented!() }
            pub fn to_bytes(&self) -> [u8; 32] { unimplemented!() }
            pub fn square(&self) -> Self { unimplemented!() }
            pub fn double(&self) -> Self { unimplemented!() }
            pub fn neg(&self) -> Self { unimplemented!() }
            pub fn mul(&self, o: &Self) -> Self { unimplemented!() }
            pub fn add(&self, o: &Self) -> Self { unimplemented!() }
            pub fn sub(&self, o: &Self) -> Self { unimplemented!() }
        }
        impl ff::Field for $t { const ZERO: Self = $t([0; 4]); const ONE: Self = $t([1, 0, 0, 0]); fn random(rng: impl RngCore) -> Self { unimplemented!() } fn square(&self) -> Self { unimplemented!() }
            fn double(&self) -> Self { unimplemented!() } fn invert(&self) -> CtOption<Self> { unimplemented!() } }
        impl ff::PrimeField for $t { type Repr = [u8; 32]; fn from_repr(r: [u8; 32]) -> CtOption<Self> { unimplemented!() } fn to_repr(&self) -> [u8; 32] { unimplemented!() }
            const MODULUS: &'static str = ""; const NUM_BITS: u32 = 254; const CAPACITY: u32 = 253; const TWO_INV: Self = $t([2, 0, 0, 0]); const MULTIPLICATIVE_GENERATOR: Self = $t([7, 0, 0, 0]);
            const S: u32 = 28; const ROOT_OF_UNITY: Self = $t([3, 0, 0, 0]); const ROOT_OF_UNITY_INV: Self = $t([4, 0, 0, 0]); const DELTA: Self = $t([5, 0, 0, 0]); }
        impl ff::FromUniformBytes<64> for $t { fn from_uniform_bytes(b: &[u8; 64]) -> Self { unimplemented!() } }
        impl ff::FromUniformBytes<48> for $t { fn from_uniform_bytes(b: &[u8; 48]) -> Self { unimplemented!() } }
        impl serde::SerdeObject for $t { fn from_raw_bytes_unchecked(b: &[u8]) -> Self { unimplemented!() } fn from_raw_bytes(b: &[u8]) -> Option<Self> { unimplemented!() } fn to_raw_bytes(&self) -> Vec<u8> { unimplemented!() }
            fn read_raw_unchecked<R: std::io::Read>(r: &mut R) -> Self { unimplemented!() } fn read_raw<R: std::io::Read>(r: &mut R) -> std::io::Result<Self> { unimplemented!() } fn write_raw<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { unimplemented!() } }
    } }
    field!(Fr); field!(Fq);
    macro_rules! curve { ($G:ident, $A:ident, $R:ident) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
        pub struct $G { pub x: Fq, pub y: Fq, pub z: Fq }
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
        pub struct $A { pub x: Fq, pub y: Fq }
        arith!($G);
        impl Add<$A> for $G { type Output = $G; fn add(self, o: $A) -> $G { unimplemented!() } }
        impl Sub<$A> for $G { type Output = $G; fn sub(self, o: $A) -> $G { unimplemented!() } }
        impl AddAssign<$A> for $G { fn add_assign(&mut self, o: $A) { unimplemented!() } }
        impl SubAssign<$A> for $G { fn sub_assign(&mut self, o: $A) { unimplemented!() } }
        impl<'a> Add<&'a $A> for $G { type Output = $G; fn add(self, o: &$A) -> $G { unimplemented!() } }
        impl Mul<Fr> for $G { type Output = $G; fn mul(self, o: Fr) -> $G { unimplemented!() } }
        impl<'a> Mul<&'a Fr> for $G { type Output = $G; fn mul(self, o: &Fr) -> $G { unimplemented!() } }
        impl<'b> Mul<Fr> for &'b $G { type Output = $G; fn mul(self, o: Fr) -> $G { unimplemented!() } }
        impl MulAssign<Fr> for $G { fn mul_assign(&mut self, o: Fr) { unimplemented!() } }
        impl<'a> MulAssign<&'a Fr> for $G { fn mul_assign(&mut self, o: &Fr) { unimplemented!() } }
        impl Neg for $A { type Output = $A; fn neg(self) -> $A { unimplemented!() } }
        impl Add for $A { type Output = $G; fn add(self, o: $A) -> $G { unimplemented!() } }
        impl Sub for $A { type Output = $G; fn sub(self, o: $A) -> $G { unimplemented!() } }
        impl Add<$G> for $A { type Output = $G; fn add(self, o: $G) -> $G { unimplemented!() } }
        impl Mul<Fr> for $A { type Output = $G; fn mul(self, o: Fr) -> $G { unimplemented!() } }
        impl<'a> Mul<&'a Fr> for $A { type Output = $G; fn mul(self, o: &Fr) -> $G { unimplemented!() } }
        impl<'b> Mul<Fr> for &'b $A { type Output = $G; fn mul(self, o: Fr) -> $G { unimplemented!() } }
        impl From<$G> for $A { fn from(x: $G) -> $A { unimplemented!() } }
        impl From<$A> for $G { fn from(x: $A) -> $G { unimplemented!() } }
        impl<'a> From<&'a $A> for $G { fn from(x: &$A) -> $G { unimplemented!() } }
        impl<'a> From<&'a $G> for $A { fn from(x: &$G) -> $A { unimplemented!() } }
        impl $G { pub fn generator() -> Self { unimplemented!() } pub fn identity() -> Self { unimplemented!() } }
        impl $A { pub fn random(rng: impl RngCore) -> Self { unimplemented!() } pub fn generator() -> Self { unimplemented!() } pub fn identity() -> Self { unimplemented!() } }
        impl group::Group for $G { type Scalar = Fr; fn random(rng: impl RngCore) -> Self { unimplemented!() } fn identity() -> Self { unimplemented!() } fn generator() -> Self { unimplemented!() }
            fn is_identity(&self) -> Choice { unimplemented!() } fn double(&self) -> Self { unimplemented!() } }
        impl group::Curve for $G { type AffineRepr = $A; fn batch_normalize(p: &[Self], q: &mut [$A]) { unimplemented!() } fn to_affine(&self) -> $A { unimplemented!() } }
        impl group::UncompressedEncoding for $A { type Uncompressed = Bytes64; fn from_uncompressed(b: &Bytes64) -> CtOption<Self> { unimplemented!() } fn from_uncompressed_unchecked(b: &Bytes64) -> CtOption<Self> { unimplemented!() }
            fn to_uncompressed(&self) -> Bytes64 { unimplemented!() } }
        impl serde::SerdeObject for $A { fn from_raw_bytes_unchecked(b: &[u8]) -> Self { unimplemented!() } fn from_raw_bytes(b: &[u8]) -> Option<Self> { unimplemented!() } fn to_raw_bytes(&self) -> Vec<u8> { unimplemented!() }
            fn read_raw_unchecked<R: std::io::Read>(r: &mut R) -> Self { unimplemented!() } fn read_raw<R: std::io::Read>(r: &mut R) -> std::io::Result<Self> { unimplemented!() } fn write_raw<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { unimplemented!() } }
        impl group::GroupEncoding for $A { type Repr = $R; fn from_bytes(b: &$R) -> CtOption<Self> { unimplemented!() } fn from_bytes_unchecked(b: &$R) -> CtOption<Self> { unimplemented!() } fn to_bytes(&self) -> $R { unimplemented!() } }
        impl CurveAffine for $A { type ScalarExt = Fr; type Base = Fq; type CurveExt = $G; fn coordinates(&self) -> CtOption<Coordinates<Self>> { unimplemented!() } fn from_xy(x: Fq, y: Fq) -> CtOption<Self> { unimplemented!() }
            fn is_on_curve(&self) -> Choice { unimplemented!() } fn a() -> Fq { unimplemented!() } fn b() -> Fq { unimplemented!() } }
        impl group::prime::PrimeCurveAffine for $A { type Scalar = Fr; type Curve = $G; fn generator() -> Self { unimplemented!() } fn identity() -> Self { unimplemented!() }
            fn is_identity(&self) -> Choice { unimplemented!() } fn to_curve(&self) -> $G { unimplemented!() } }
    } }
    #[derive(Clone, Copy, Debug)]
    pub struct Bytes64([u8; 64]);
    impl Default for Bytes64 { fn default() -> Self { Bytes64([0; 64]) } }
    impl AsRef<[u8]> for Bytes64 { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl AsMut<[u8]> for Bytes64 { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
    #[derive(Clone, Copy, Debug)]
    pub struct Bytes32([u8; 32]);
    impl Default for Bytes32 { fn default() -> Self { Bytes32([0; 32]) } }
    impl AsRef<[u8]> for Bytes32 { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl AsMut<[u8]> for Bytes32 { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
    curve!(G1, G1Affine, Bytes32); curve!(G2, G2Affine, Bytes64);
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Gt(pub Fq);
    arith!(Gt);
    impl Mul<Fr> for Gt { type Output = Gt; fn mul(self, o: Fr) -> Gt { unimplemented!() } }
    impl<'a> Mul<&'a Fr> for Gt { type Output = Gt; fn mul(self, o: &Fr) -> Gt { unimplemented!() } }
    impl MulAssign<Fr> for Gt { fn mul_assign(&mut self, o: Fr) { unimplemented!() } }
    impl<'a> MulAssign<&'a Fr> for Gt { fn mul_assign(&mut self, o: &Fr) { unimplemented!() } }
    impl group::Group for Gt { type Scalar = Fr; fn random(rng: impl RngCore) -> Self { unimplemented!() } fn identity() -> Self { unimplemented!() } fn generator() -> Self { unimplemented!() }
        fn is_identity(&self) -> Choice { unimplemented!() } fn double(&self) -> Self { unimplemented!() } }
    #[derive(Clone, Debug)] pub struct G2Prepared;
    impl From<G2Affine> for G2Prepared { fn from(x: G2Affine) -> Self { G2Prepared } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)] pub struct Bn256;
    impl pairing::Engine for Bn256 { type Fr = Fr; type G1 = G1; type G1Affine = G1Affine; type G2 = G2; type G2Affine = G2Affine; type Gt = Gt; fn pairing(p: &G1Affine, q: &G2Affine) -> Gt { unimplemented!() } }
    impl pairing::MillerLoopResult for Gt { type Gt = Gt; fn final_exponentiation(&self) -> Gt { unimplemented!() } }
    impl pairing::MultiMillerLoop for Bn256 { type G2Prepared = G2Prepared; type Result = Gt; fn multi_miller_loop(t: &[(&G1Affine, &G2Prepared)]) -> Gt { unimplemented!() } }
}
