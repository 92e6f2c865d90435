//! xcm-executor as the runtime refers to it.
use core::marker::PhantomData;
pub trait Config {
	type RuntimeCall;
	type XcmSender;
	type AssetTransactor;
	type OriginConverter;
	type IsReserve;
	type IsTeleporter;
	type UniversalLocation;
	type Barrier;
	type Weigher;
	type Trader;
	type ResponseHandler;
	type AssetTrap;
	type AssetClaims;
	type SubscriptionService;
	type PalletInstancesInfo;
	type MaxAssetsIntoHolding;
	type AssetLocker;
	type AssetExchanger;
	type FeeManager;
	type MessageExporter;
	type UniversalAliases;
	type CallDispatcher;
	type SafeCallFilter;
	type Aliasers;
	type TransactionalProcessor;
	type HrmpNewChannelOpenRequestHandler;
	type HrmpChannelAcceptedHandler;
	type HrmpChannelClosingHandler;
	type XcmRecorder;
}
pub struct XcmExecutor<C>(PhantomData<C>);
pub mod traits {
	pub struct JustTry;
	pub trait ConvertLocation<AccountId> {
		fn convert_location(location: &xcm::latest::Location) -> Option<AccountId>;
	}
	/// The first converter of the tuple that knows the location decides, as in xcm-executor.
	impl<X, A: ConvertLocation<X>, B: ConvertLocation<X>, C: ConvertLocation<X>, D: ConvertLocation<X>, E: ConvertLocation<X>>
		ConvertLocation<X> for (A, B, C, D, E)
	{
		fn convert_location(l: &xcm::latest::Location) -> Option<X> {
			if let Some(x) = A::convert_location(l) {
				return Some(x);
			}
			if let Some(x) = B::convert_location(l) {
				return Some(x);
			}
			if let Some(x) = C::convert_location(l) {
				return Some(x);
			}
			if let Some(x) = D::convert_location(l) {
				return Some(x);
			}
			E::convert_location(l)
		}
	}
}
