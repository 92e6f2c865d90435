//! sp-weights.
pub use frame_support::weights::*;
