//! parachains-common: the types shared by system parachains.
use core::marker::PhantomData;
pub type AccountId = sp_runtime::AccountId32;
pub type Balance = u128;
pub type BlockNumber = u32;
pub type Hash = sp_runtime::H256;
pub type Nonce = u32;
pub type AssetIdForTrustBackedAssets = u32;
pub struct Signature;
impl sp_runtime::traits::Verify for Signature {
	type Signer = Signer;
}
pub struct Signer;
impl sp_runtime::traits::IdentifyAccount for Signer {
	type AccountId = sp_runtime::AccountId32;
	fn into_account(self) -> Self::AccountId {
		sp_runtime::AccountId32::new([0; 32])
	}
}
pub struct Header;
pub struct AuraId;
pub mod opaque {}
pub const AVERAGE_ON_INITIALIZE_RATIO: sp_runtime::Perbill = sp_runtime::Perbill::from_percent(5);
pub const NORMAL_DISPATCH_RATIO: sp_runtime::Perbill = sp_runtime::Perbill::from_percent(75);
pub const MINUTES: BlockNumber = 60_000 / 12_000;
pub const HOURS: BlockNumber = MINUTES * 60;
pub const DAYS: BlockNumber = HOURS * 24;
pub mod message_queue {
	pub struct NarrowOriginToSibling<I>(core::marker::PhantomData<I>);
	pub struct ParaIdToSibling;
}
pub mod xcm_config {
	pub struct AssetFeeAsExistentialDepositMultiplier<A, B, C, D>(core::marker::PhantomData<(A, B, C, D)>);
}
pub mod impls {
	pub struct NonZeroIssuance<A, B>(core::marker::PhantomData<(A, B)>);
}
#[allow(dead_code)]
type P<T> = PhantomData<T>;
