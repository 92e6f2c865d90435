//! Types of pallet-nfts the code under proof refers to, and membership of one account in one group as the harness says.
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct CollectionSettings(pub u64);
impl CollectionSettings {
	pub fn all_enabled() -> Self {
		CollectionSettings(0)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct ItemSettings(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct ItemConfig {
	pub settings: ItemSettings,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum MintType<CollectionId> {
	Issuer,
	Public,
	HolderOf(CollectionId),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct MintSettings<Price, BlockNumber, CollectionId> {
	pub mint_type: MintType<CollectionId>,
	pub price: Option<Price>,
	pub start_block: Option<BlockNumber>,
	pub end_block: Option<BlockNumber>,
	pub default_item_settings: ItemSettings,
}
impl<P, B, C> Default for MintSettings<P, B, C> {
	fn default() -> Self {
		MintSettings { mint_type: MintType::Issuer, price: None, start_block: None, end_block: None, default_item_settings: Default::default() }
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct CollectionConfig<Price, BlockNumber, CollectionId> {
	pub settings: CollectionSettings,
	pub max_supply: Option<u32>,
	pub mint_settings: MintSettings<Price, BlockNumber, CollectionId>,
}

pub struct PalletFeatures(pub u64);
impl PalletFeatures {
	pub fn all_enabled() -> Self {
		PalletFeatures(0)
	}
}
frame_support::model_pallet_instance! {
	[RuntimeEvent CollectionId ItemId Currency ForceOrigin CreateOrigin Locker CollectionDeposit ItemDeposit MetadataDepositBase AttributeDepositBase DepositPerByte StringLimit KeyLimit ValueLimit ApprovalsLimit ItemAttributesApprovalsLimit MaxTips MaxDeadlineDuration MaxAttributesPerCall Features OffchainSignature OffchainPublic WeightInfo]
	[create force_create destroy mint force_mint burn transfer redeposit lock_item_transfer unlock_item_transfer lock_collection transfer_ownership set_team force_collection_owner force_collection_config approve_transfer cancel_approval clear_all_transfer_approvals lock_item_properties set_attribute force_set_attribute clear_attribute approve_item_attributes cancel_item_attributes_approval set_metadata clear_metadata set_collection_metadata clear_collection_metadata set_accept_ownership set_collection_max_supply update_mint_settings set_price buy_item pay_tips create_swap cancel_swap claim_swap mint_pre_signed set_attributes_pre_signed]
}
use fc_traits_memberships as memberships;
use frame_support::{storage::Slot, traits::tokens::nonfungibles_v2, Parameter};
use sp_runtime::{DispatchError, DispatchResult};

/// Whether one account is a member of one group; asked about any other pair, the model does not know.
pub struct Membership<G, A>(pub Option<(G, A, bool)>);
impl<G, A> Default for Membership<G, A> {
	fn default() -> Self {
		Membership(None)
	}
}
static mut MEMBERSHIP: Slot = Slot::new();
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn membership() -> &'static mut Membership<T::CollectionId, T::AccountId> {
		Slot::cell::<Membership<T::CollectionId, T::AccountId>>(core::ptr::addr_of_mut!(MEMBERSHIP))
	}
	pub fn install(at: *mut Membership<T::CollectionId, T::AccountId>) {
		Slot::install(core::ptr::addr_of_mut!(MEMBERSHIP), at)
	}
}
impl<T: Config<I>, I: 'static> memberships::Inspect<T::AccountId> for Pallet<T, I>
where
	T::CollectionId: PartialEq,
{
	type Group = T::CollectionId;
	type Membership = T::ItemId;
	fn user_memberships(_: &T::AccountId, _: Option<Self::Group>) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>> {
		nd::model_gap!(false, "memberships");
		Box::new(core::iter::empty())
	}
	fn is_member_of(group: &Self::Group, who: &T::AccountId) -> bool {
		match &Self::membership().0 {
			Some((g, a, yes)) if g == group && a == who => *yes,
			_ => {
				nd::model_gap!(false, "membership of a pair the harness does not know");
				false
			}
		}
	}
	fn check_membership(_: &T::AccountId, _: &Self::Membership) -> Option<Self::Group> {
		nd::model_gap!(false, "memberships");
		None
	}
	fn members_total(_: &Self::Group) -> u32 {
		nd::model_gap!(false, "memberships");
		0
	}
}
impl<T: Config<I>, I: 'static, C> memberships::Manager<T::AccountId, C> for Pallet<T, I>
where
	T::CollectionId: PartialEq,
{
	fn assign(_: &Self::Group, _: &Self::Membership, _: &T::AccountId) -> DispatchResult {
		nd::model_gap!(false, "memberships");
		Ok(())
	}
	fn release(_: &Self::Group, _: &Self::Membership) -> DispatchResult {
		nd::model_gap!(false, "memberships");
		Ok(())
	}
}
impl<T: Config<I>, I: 'static, C> memberships::Rank<T::AccountId, C> for Pallet<T, I>
where
	T::CollectionId: PartialEq,
{
	fn rank_of(_: &Self::Group, _: &Self::Membership) -> Option<memberships::GenericRank> {
		nd::model_gap!(false, "memberships");
		None
	}
	fn set_rank(_: &Self::Group, _: &Self::Membership, _: impl Into<memberships::GenericRank>) -> DispatchResult {
		nd::model_gap!(false, "memberships");
		Ok(())
	}
	fn ranks_total(_: &Self::Group) -> u32 {
		nd::model_gap!(false, "memberships");
		0
	}
}
impl<T: Config<I>, I: 'static> nonfungibles_v2::Inspect<T::AccountId> for Pallet<T, I>
where
	T::CollectionId: Parameter,
	T::ItemId: Parameter,
{
	type ItemId = T::ItemId;
	type CollectionId = T::CollectionId;
}
impl<T: Config<I>, I: 'static, C> nonfungibles_v2::Create<T::AccountId, C> for Pallet<T, I>
where
	T::CollectionId: Parameter,
	T::ItemId: Parameter,
{
	fn create_collection(_: &T::AccountId, _: &T::AccountId, _: &C) -> Result<T::CollectionId, DispatchError> {
		nd::model_gap!(false, "collections");
		Err(DispatchError::Unavailable)
	}
	fn create_collection_with_id(_: T::CollectionId, _: &T::AccountId, _: &T::AccountId, _: &C) -> Result<(), DispatchError> {
		nd::model_gap!(false, "collections");
		Err(DispatchError::Unavailable)
	}
}
impl<T: Config<I>, I: 'static, C> nonfungibles_v2::Mutate<T::AccountId, C> for Pallet<T, I>
where
	T::CollectionId: Parameter,
	T::ItemId: Parameter,
{
	fn mint_into(_: &T::CollectionId, _: &T::ItemId, _: &T::AccountId, _: &C, _: bool) -> DispatchResult {
		nd::model_gap!(false, "collections");
		Err(DispatchError::Unavailable)
	}
}
impl<T: Config<I>, I: 'static, P> nonfungibles_v2::Trading<T::AccountId, P> for Pallet<T, I>
where
	T::CollectionId: Parameter,
	T::ItemId: Parameter,
{
	fn set_price(
		_: &T::CollectionId,
		_: &T::ItemId,
		_: &T::AccountId,
		_: Option<P>,
		_: Option<T::AccountId>,
	) -> DispatchResult {
		nd::model_gap!(false, "collections");
		Err(DispatchError::Unavailable)
	}
}
