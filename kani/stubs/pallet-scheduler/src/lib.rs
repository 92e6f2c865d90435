//! pallet-scheduler as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeOrigin RuntimeEvent PalletsOrigin RuntimeCall MaximumWeight ScheduleOrigin MaxScheduledPerBlock WeightInfo OriginPrivilegeCmp Preimages]
	[schedule cancel schedule_named cancel_named schedule_after schedule_named_after set_retry set_retry_named cancel_retry cancel_retry_named]
}

use frame_support::traits::schedule::{v3, Bounded, DispatchTime, Period, Priority};
use sp_runtime::DispatchError;
impl<T: Config> v3::Named<T::BlockNumber, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
	type Address = u64;
	type Hasher = T::Hashing;
	fn schedule_named(
		_: v3::TaskName,
		_: DispatchTime<T::BlockNumber>,
		_: Option<Period<T::BlockNumber>>,
		_: Priority,
		_: T::PalletsOrigin,
		_: Bounded<<T as Config>::RuntimeCall, T::Hashing>,
	) -> Result<u64, DispatchError> {
		nd::model_gap!(false, "scheduling");
		Ok(0)
	}
	fn cancel_named(_: v3::TaskName) -> Result<(), DispatchError> {
		nd::model_gap!(false, "scheduling");
		Ok(())
	}
}
