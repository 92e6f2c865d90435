//! sp-core as used by the code under proof.
pub use parity_scale_codec::{self as codec, Decode, Encode, MaxEncodedLen};
pub use sp_runtime::bounded;
pub use sp_runtime::traits::{ConstBool, ConstI32, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, ConstUint, Get, TryCollect, TypedGet};
pub use sp_runtime::{AccountId32, H160, H256, U256};
pub mod crypto {
	pub use sp_runtime::{AccountId32, KeyTypeId};
}
pub mod hash {
	pub use sp_runtime::{H160, H256};
}
pub struct OpaqueMetadata;
pub use sp_runtime::parameter_types;
