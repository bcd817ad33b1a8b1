//! Monitoring runtime shared by every property check: deterministic randomness, the reference
//! model of a set, observation of a set through its public interface, and the verdict log.
pub mod ctx;
pub mod ops;
pub mod rng;
#[cfg(feature = "serde")]
pub mod tok;
pub mod zoo;

pub use ctx::*;
pub use ops::*;
pub use rng::*;
pub use zoo::*;
