//! The harness core. Generators (`rng`, `data`) also run on other platforms.
pub mod data;
mod rng;
pub use rng::*;
#[cfg(not(target_arch = "wasm32"))]
mod run;
#[cfg(not(target_arch = "wasm32"))]
pub use run::*;
