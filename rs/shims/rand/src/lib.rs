//! Stand-in for rand 0.7 (only named by `extern crate rand`).
pub use rand_core::{CryptoRng, RngCore, SeedableRng};
pub mod rngs {
    pub use rand_core::OsRng;
}
