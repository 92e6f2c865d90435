//! pallet-assets as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet_instance! {
	[RuntimeEvent Balance AssetId AssetIdParameter Currency CreateOrigin ForceOrigin AssetDeposit MetadataDepositBase MetadataDepositPerByte ApprovalDeposit StringLimit Freezer Extra WeightInfo CallbackHandle AssetAccountDeposit RemoveItemsLimit MaxHolds RuntimeHoldReason]
	[create force_create start_destroy destroy_accounts destroy_approvals finish_destroy mint burn transfer transfer_keep_alive force_transfer freeze thaw freeze_asset thaw_asset transfer_ownership set_team set_metadata clear_metadata force_set_metadata force_clear_metadata force_asset_status approve_transfer cancel_approval force_cancel_approval transfer_approved touch refund set_min_balance touch_other refund_other block]
}

use frame_support::{
	storage::Slot,
	traits::{fungibles, tokens, PalletInfoAccess},
	PalletIndex,
};
use sp_runtime::DispatchResult;
pub struct BalanceToAssetBalance<F, T, C, I = ()>(PhantomData<(F, T, C, I)>);

/// The minimum balance of one asset (`None`: not set by the harness).
pub struct MinBalance<A, B>(pub Option<(A, B)>);
impl<A, B> Default for MinBalance<A, B> {
	fn default() -> Self {
		MinBalance(None)
	}
}
static mut MIN: Slot = Slot::new();
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn min_balance() -> &'static mut MinBalance<T::AssetId, T::Balance> {
		Slot::cell::<MinBalance<T::AssetId, T::Balance>>(core::ptr::addr_of_mut!(MIN))
	}
	pub fn install(at: *mut MinBalance<T::AssetId, T::Balance>) {
		Slot::install(core::ptr::addr_of_mut!(MIN), at)
	}
}
impl<T: Config<I> + PalletIndex<Self>, I: 'static> PalletInfoAccess for Pallet<T, I> {
	fn index() -> usize {
		T::INDEX
	}
}
impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I>
where
	T::AssetId: tokens::AssetId,
	T::Balance: tokens::Balance,
{
	type AssetId = T::AssetId;
	type Balance = T::Balance;
	fn minimum_balance(asset: T::AssetId) -> T::Balance {
		match &Self::min_balance().0 {
			Some((a, b)) if a == &asset => *b,
			_ => {
				nd::model_gap!(false, "minimum balance of an asset the harness does not know");
				Default::default()
			}
		}
	}
}
macro_rules! token_traits { ($($t:path),*) => { $(
	impl<T: Config<I>, I: 'static> $t for Pallet<T, I> where T::AssetId: tokens::AssetId, T::Balance: tokens::Balance {}
)* } }
token_traits!(fungibles::Mutate<T::AccountId>, fungibles::Balanced<T::AccountId>);
impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I>
where
	T::AssetId: tokens::AssetId,
	T::Balance: tokens::Balance,
{
	fn create(_: Self::AssetId, _: T::AccountId, _: bool, _: Self::Balance) -> DispatchResult {
		nd::model_gap!(false, "asset creation");
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> fungibles::hold::Inspect<T::AccountId> for Pallet<T, I>
where
	T::AssetId: tokens::AssetId,
	T::Balance: tokens::Balance,
	T::RuntimeHoldReason: parity_scale_codec::Encode + scale_info::TypeInfo + 'static,
{
	type Reason = T::RuntimeHoldReason;
}
impl<T: Config<I>, I: 'static> fungibles::hold::Mutate<T::AccountId> for Pallet<T, I>
where
	T::AssetId: tokens::AssetId,
	T::Balance: tokens::Balance,
	T::RuntimeHoldReason: parity_scale_codec::Encode + scale_info::TypeInfo + 'static,
{
}
