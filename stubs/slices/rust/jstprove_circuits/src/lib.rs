#![allow(warnings)]
#![feature(min_specialization)]
pub mod circuit_functions;
pub mod expander_metadata;
pub mod io;
pub mod proof_config;
pub mod proof_system;
pub mod runner { pub mod errors; }
pub use circuit_functions::layers::LayerKind;
pub use proof_config::{Field, ProofConfig, ProofConfigError, StampedProofConfig};
