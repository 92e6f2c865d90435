//! pallet-utility as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent RuntimeCall PalletsOrigin WeightInfo]
	[batch as_derivative batch_all dispatch_as force_batch with_weight]
}
