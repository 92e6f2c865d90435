//! pallet-xcm as the runtime refers to it.
use core::marker::PhantomData;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub trait Config: frame_system::Config {
	type RuntimeEvent;
	type SendXcmOrigin;
	type ExecuteXcmOrigin;
	type XcmRouter;
	type XcmExecuteFilter;
	type XcmExecutor;
	type XcmTeleportFilter;
	type XcmReserveTransferFilter;
	type Weigher;
	type UniversalLocation;
	type RuntimeOrigin;
	type RuntimeCall;
	const VERSION_DISCOVERY_QUEUE_SIZE: u32;
	type AdvertisedXcmVersion;
	type Currency;
	type CurrencyMatcher;
	type TrustedLockers;
	type SovereignAccountOf;
	type MaxLockers;
	type WeightInfo;
	type AdminOrigin;
	type MaxRemoteLockConsumers;
	type RemoteLockConsumerIdentifier;
}
frame_support::model_pallet! {
	@items [
		send teleport_assets reserve_transfer_assets execute force_xcm_version force_default_xcm_version
		force_subscribe_version_notify force_unsubscribe_version_notify limited_reserve_transfer_assets
		limited_teleport_assets force_suspension transfer_assets claim_assets transfer_assets_using_type_and_then
	]
}
/// An origin that came in as a message; which location it names is kept as a number.
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum Origin {
	Xcm(u64),
	Response(u64),
}
impl<T: Config> Pallet<T>
where
	T::AccountId: From<[u8; 32]>,
{
	/// The account tracking teleports; not read by the code under proof.
	pub fn check_account() -> T::AccountId {
		[0x77; 32].into()
	}
}
pub struct CurrentXcmVersion;
pub struct TestWeightInfo;
pub struct XcmPassthrough<O>(PhantomData<O>);
pub struct EnsureXcm<F>(PhantomData<F>);
pub struct IsVoiceOfBody<P, B>(PhantomData<(P, B)>);
