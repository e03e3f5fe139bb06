//! Stand-in for the part of ark-std the prover crates name (type checking only).
pub use num_traits::{One, Zero};
pub use rand;
pub fn test_rng() -> rand::rngs::StdRng { <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(0) }
pub fn log2(x: usize) -> u32 { if x <= 1 { 0 } else { usize::BITS - (x - 1).leading_zeros() } }
pub mod iterable { pub trait Iterable { type Item; type Iter: Iterator<Item = Self::Item>; fn iter(&self) -> Self::Iter; fn len(&self) -> usize; } impl<I> Iterable for I where I: IntoIterator + Copy, I::IntoIter: ExactSizeIterator { type Item = I::Item; type Iter = I::IntoIter; fn iter(&self) -> Self::Iter { self.into_iter() } fn len(&self) -> usize { self.iter().len() } } }
pub mod perf_trace {
    #[macro_export] macro_rules! start_timer { ($e:expr) => {{ let _ = $e(); }}; ($e:expr, $($t:tt)*) => {{ let _ = $e(); }}; }
    #[macro_export] macro_rules! end_timer { ($e:expr) => {{ let _ = $e; }}; ($e:expr, $($t:tt)*) => {{ let _ = $e; }}; }
}
