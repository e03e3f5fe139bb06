//! Programs that use the repository's procedural macros, so that their expansions can be analysed.
#![allow(dead_code, unused_variables, unused_mut, unused_assignments)]
pub mod derived;
pub mod kernels;
pub mod memo;
