//! xcm v4 types as used by the code under proof. Junctions are kept in place instead of behind an
//! `Arc`, at most five of them.
pub mod latest;
pub use latest as v4;
pub mod prelude {
	pub use crate::latest::prelude::*;
}
pub trait IntoVersion {}
#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
pub enum VersionedLocation {
	V4(latest::Location),
}
