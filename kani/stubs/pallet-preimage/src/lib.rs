//! pallet-preimage as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[WeightInfo RuntimeEvent Currency ManagerOrigin Consideration]
	[note_preimage unnote_preimage request_preimage unrequest_preimage ensure_updated]
}

use frame_support::traits::{Bounded, QueryPreimage, StorePreimage};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::DispatchError;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum HoldReason {
	Preimage,
}
impl<T: Config> QueryPreimage for Pallet<T> {
	type H = T::Hashing;
}
impl<T: Config> StorePreimage for Pallet<T> {
	fn bound<C>(_: C) -> Result<Bounded<C, T::Hashing>, DispatchError> {
		nd::model_gap!(false, "preimages");
		Err(DispatchError::Unavailable)
	}
}
