//! sp-version as the runtime refers to it.
pub struct RuntimeVersion {
	pub spec_name: &'static str,
	pub impl_name: &'static str,
	pub authoring_version: u32,
	pub spec_version: u32,
	pub impl_version: u32,
	pub apis: (),
	pub transaction_version: u32,
	pub state_version: u8,
}
pub use frame_support::runtime_version;
