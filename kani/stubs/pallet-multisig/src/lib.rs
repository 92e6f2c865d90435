//! pallet-multisig as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent RuntimeCall Currency DepositBase DepositFactor MaxSignatories WeightInfo]
	[as_multi_threshold_1 as_multi approve_as_multi cancel_as_multi]
}
