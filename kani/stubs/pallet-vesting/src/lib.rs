//! pallet-vesting as the runtime refers to it.
use core::marker::PhantomData;
pub trait Config: frame_system::Config {
	type RuntimeEvent;
	type Currency;
	type BlockNumberToBalance;
	type MinVestedTransfer;
	type WeightInfo;
	type UnvestedFundsAllowedWithdrawReasons;
	type BlockNumberProvider;
	const MAX_VESTING_SCHEDULES: u32;
}
frame_support::model_pallet! {
	@items [vest vest_other vested_transfer force_vested_transfer merge_schedules force_remove_vesting_schedule]
}
#[allow(dead_code)]
type P<T> = PhantomData<T>;
