//! Names of cumulus-primitives-core the runtime refers to.
pub struct ParaId;
pub enum AggregateMessageOrigin {
	Here,
	Parent,
	Sibling(u32),
}
pub mod relay_chain {
	pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024;
}
pub use xcm::latest::AssetId;
