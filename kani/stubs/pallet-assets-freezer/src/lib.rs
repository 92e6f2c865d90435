//! pallet-assets-freezer as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet_instance! {
	[RuntimeEvent RuntimeFreezeReason]
	[]
}

use frame_support::traits::{fungibles, tokens};
use sp_runtime::DispatchResult;
type Assets<T, I> = pallet_assets::Pallet<T, I>;
impl<T: Config<I> + pallet_assets::Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I>
where
	<T as pallet_assets::Config<I>>::AssetId: tokens::AssetId,
	<T as pallet_assets::Config<I>>::Balance: tokens::Balance,
{
	type AssetId = <Assets<T, I> as fungibles::Inspect<T::AccountId>>::AssetId;
	type Balance = <Assets<T, I> as fungibles::Inspect<T::AccountId>>::Balance;
}
impl<T: Config<I> + pallet_assets::Config<I>, I: 'static> fungibles::freeze::Inspect<T::AccountId> for Pallet<T, I>
where
	<T as pallet_assets::Config<I>>::AssetId: tokens::AssetId,
	<T as pallet_assets::Config<I>>::Balance: tokens::Balance,
	<T as Config<I>>::RuntimeFreezeReason: parity_scale_codec::Encode + scale_info::TypeInfo + 'static,
{
	type Id = <T as Config<I>>::RuntimeFreezeReason;
}
impl<T: Config<I> + pallet_assets::Config<I>, I: 'static> fungibles::freeze::Mutate<T::AccountId> for Pallet<T, I>
where
	<T as pallet_assets::Config<I>>::AssetId: tokens::AssetId,
	<T as pallet_assets::Config<I>>::Balance: tokens::Balance,
	<T as Config<I>>::RuntimeFreezeReason: parity_scale_codec::Encode + scale_info::TypeInfo + 'static,
{
	fn set_freeze(_: Self::AssetId, _: &Self::Id, _: &T::AccountId, _: Self::Balance) -> DispatchResult {
		nd::model_gap!(false, "freezes");
		Ok(())
	}
	fn extend_freeze(_: Self::AssetId, _: &Self::Id, _: &T::AccountId, _: Self::Balance) -> DispatchResult {
		nd::model_gap!(false, "freezes");
		Ok(())
	}
	fn thaw(_: Self::AssetId, _: &Self::Id, _: &T::AccountId) -> DispatchResult {
		nd::model_gap!(false, "freezes");
		Ok(())
	}
}
