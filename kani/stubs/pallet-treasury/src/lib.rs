//! pallet-treasury as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[Currency RejectOrigin RuntimeEvent SpendPeriod Burn PalletId BurnDestination WeightInfo SpendFunds MaxApprovals SpendOrigin AssetKind Beneficiary BeneficiaryLookup Paymaster BalanceConverter PayoutPeriod]
	[spend_local remove_approval spend payout check_status void_spend]
}

use frame_support::{traits::Get, PalletId};
use sp_runtime::traits::AccountIdConversion;
impl<T: Config> Pallet<T>
where
	T::PalletId: Get<PalletId>,
{
	/// The account derived from the treasury's pallet id.
	pub fn account_id() -> T::AccountId {
		T::PalletId::get().into_account_truncating()
	}
}
