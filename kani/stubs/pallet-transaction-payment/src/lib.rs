//! pallet-transaction-payment as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent OnChargeTransaction WeightToFee LengthToFee FeeMultiplierUpdate OperationalFeeMultiplier]
	[]
}

pub struct FungibleAdapter<F, OU>(core::marker::PhantomData<(F, OU)>);
