//! pallet-message-queue as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent WeightInfo MessageProcessor Size QueueChangeHandler QueuePausedQuery HeapSize MaxStale ServiceWeight IdleMaxServiceWeight]
	[reap_page execute_overweight]
}
