//! pallet-timestamp as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[Moment OnTimestampSet MinimumPeriod WeightInfo]
	[set]
}
