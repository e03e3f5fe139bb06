#![allow(clippy::all)]
pub mod traits;
pub use traits::StdCircuit;
pub mod logup;
pub use logup::{LogUpCircuit, LogUpParams};
