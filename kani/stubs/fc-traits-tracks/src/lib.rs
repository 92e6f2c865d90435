//! Track-mutation trait of frame-contrib, as used by the code under proof.
use pallet_referenda::TrackInfo;
use parity_scale_codec::MaxEncodedLen;
use sp_runtime::DispatchResult;

pub trait MutateTracks<Balance, Moment> {
	type Id: Copy + MaxEncodedLen;
	type RuntimeOrigin;
	fn insert(id: Self::Id, info: TrackInfo<Balance, Moment>, pallet_origin: Self::RuntimeOrigin) -> DispatchResult;
	fn update(id: Self::Id, info: TrackInfo<Balance, Moment>) -> DispatchResult;
	fn remove(id: Self::Id, pallet_origin: Self::RuntimeOrigin) -> DispatchResult;
}
