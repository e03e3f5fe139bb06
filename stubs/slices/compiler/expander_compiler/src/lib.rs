#![allow(clippy::pedantic, clippy::all)]
#![feature(min_specialization)]
#![allow(clippy::manual_div_ceil)]

pub mod builder;
pub mod circuit;
pub mod compile;
pub mod field;
pub mod frontend;
pub mod hints;
pub mod layering;
pub mod utils;

pub use expander_circuit;
pub use gkr_engine;
pub use serdes;
