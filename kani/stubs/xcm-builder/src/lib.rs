//! xcm-builder as the runtime refers to it: names only, except `NativeAsset` and the account converters.
use core::marker::PhantomData;
pub struct AccountId32Aliases<A, B>(PhantomData<(A, B,)>);
pub struct AllowExplicitUnpaidExecutionFrom<A>(PhantomData<(A,)>);
pub struct AllowTopLevelPaidExecutionFrom<A>(PhantomData<(A,)>);
pub struct ConvertedConcreteId<A, B, C, D>(PhantomData<(A, B, C, D,)>);
pub struct EnsureXcmOrigin<A, B>(PhantomData<(A, B,)>);
pub struct FungibleAdapter<A, B, C, D, E>(PhantomData<(A, B, C, D, E,)>);
pub struct FungiblesAdapter<A, B, C, D, E, F>(PhantomData<(A, B, C, D, E, F,)>);
pub struct IsConcrete<A>(PhantomData<(A,)>);
pub struct LocalMint<A>(PhantomData<(A,)>);
pub struct ParentIsPreset<A>(PhantomData<(A,)>);
pub struct RelayChainAsNative<A, B>(PhantomData<(A, B,)>);
pub struct SiblingParachainAsNative<A, B>(PhantomData<(A, B,)>);
pub struct SiblingParachainConvertsVia<A, B>(PhantomData<(A, B,)>);
pub struct SignedAccountId32AsNative<A, B>(PhantomData<(A, B,)>);
pub struct SignedToAccountId32<A, B, C>(PhantomData<(A, B, C,)>);
pub struct SovereignSignedViaLocation<A, B>(PhantomData<(A, B,)>);
pub struct StartsWith<A>(PhantomData<(A,)>);
pub struct UsingComponents<A, B, C, D, E>(PhantomData<(A, B, C, D, E,)>);
pub struct WeightInfoBounds<A, B, C>(PhantomData<(A, B, C,)>);
pub struct WithComputedOrigin<A, B, C>(PhantomData<(A, B, C,)>);
pub struct MatchedConvertedConcreteId<A, B, C, D, E>(PhantomData<(A, B, C, D, E,)>);
pub struct ProcessXcmMessage<A, B, C>(PhantomData<(A, B, C,)>);
pub struct IsChildSystemParachain<A>(PhantomData<(A,)>);
pub struct FrameTransactionalProcessor;
pub struct TakeWeightCredit;
pub enum MintLocation {
	Local,
	NonLocal,
}
/// Accepts an asset from the location that is the asset's own id, as in xcm-builder.
pub struct NativeAsset;
impl frame_support::traits::ContainsPair<xcm::latest::Asset, xcm::latest::Location> for NativeAsset {
	fn contains(asset: &xcm::latest::Asset, origin: &xcm::latest::Location) -> bool {
		asset.id.0 == *origin
	}
}

use xcm::latest::{Junction, Location, NetworkId};
use xcm_executor::traits::ConvertLocation;
fn prefixed<A: From<[u8; 32]>>(prefix: &[u8], para: Option<u32>) -> A {
	let mut b = [0; 32];
	let mut i = 0;
	while i < prefix.len() {
		b[i] = prefix[i];
		i += 1;
	}
	if let Some(id) = para {
		let id = id.to_le_bytes();
		(b[i], b[i + 1], b[i + 2], b[i + 3]) = (id[0], id[1], id[2], id[3]);
	}
	b.into()
}
/// The parent chain itself has the account `Parent`.
impl<A: From<[u8; 32]>> ConvertLocation<A> for ParentIsPreset<A> {
	fn convert_location(l: &Location) -> Option<A> {
		match l.unpack() {
			(1, []) => Some(prefixed(b"Parent", None)),
			_ => None,
		}
	}
}
/// A sibling chain has the account `sibl` followed by its number.
impl<P, A: From<[u8; 32]>> ConvertLocation<A> for SiblingParachainConvertsVia<P, A> {
	fn convert_location(l: &Location) -> Option<A> {
		match l.unpack() {
			(1, [Junction::Parachain(id)]) => Some(prefixed(b"sibl", Some(*id))),
			_ => None,
		}
	}
}
/// A local account of no or the given network is that account.
impl<N: frame_support::traits::Get<Option<NetworkId>>, A: From<[u8; 32]>> ConvertLocation<A> for AccountId32Aliases<N, A> {
	fn convert_location(l: &Location) -> Option<A> {
		match l.unpack() {
			(0, [Junction::AccountId32 { id, network: None }]) => Some((*id).into()),
			(0, [Junction::AccountId32 { id, network }]) if *network == N::get() => Some((*id).into()),
			_ => None,
		}
	}
}
