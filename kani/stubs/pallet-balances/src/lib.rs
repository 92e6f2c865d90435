//! pallet-balances as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[MaxLocks Balance RuntimeEvent DustRemoval ExistentialDeposit AccountStore WeightInfo MaxReserves ReserveIdentifier RuntimeHoldReason FreezeIdentifier MaxFreezes RuntimeFreezeReason]
	[transfer_allow_death force_transfer transfer_keep_alive transfer_all force_unreserve upgrade_accounts force_set_balance force_adjust_total_issuance burn]
}

use frame_support::traits::{fungible, tokens};
use sp_runtime::DispatchResult;
pub struct AccountData<B>(core::marker::PhantomData<B>);
pub struct NegativeImbalance<T>(core::marker::PhantomData<T>);
impl<T: Config> frame_support::traits::Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type NegativeImbalance = NegativeImbalance<T>;
	type PositiveImbalance = ();
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T>
where
	T::Balance: tokens::Balance,
{
	type Balance = T::Balance;
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> where T::Balance: tokens::Balance {}
impl<T: Config> fungible::freeze::Inspect<T::AccountId> for Pallet<T>
where
	T::Balance: tokens::Balance,
	T::FreezeIdentifier: parity_scale_codec::Encode + scale_info::TypeInfo + 'static,
{
	type Id = T::FreezeIdentifier;
}
impl<T: Config> fungible::freeze::Mutate<T::AccountId> for Pallet<T>
where
	T::Balance: tokens::Balance,
	T::FreezeIdentifier: parity_scale_codec::Encode + scale_info::TypeInfo + 'static,
{
	fn set_freeze(_: &Self::Id, _: &T::AccountId, _: Self::Balance) -> DispatchResult {
		nd::model_gap!(false, "freezes");
		Ok(())
	}
	fn extend_freeze(_: &Self::Id, _: &T::AccountId, _: Self::Balance) -> DispatchResult {
		nd::model_gap!(false, "freezes");
		Ok(())
	}
	fn thaw(_: &Self::Id, _: &T::AccountId) -> DispatchResult {
		nd::model_gap!(false, "freezes");
		Ok(())
	}
}
