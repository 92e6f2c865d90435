//! cumulus-pallet-xcm as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent XcmExecutor]
	[]
}

use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum Origin {
	Relay,
	SiblingParachain(u32),
}
