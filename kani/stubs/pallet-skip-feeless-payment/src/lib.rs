//! pallet-skip-feeless-payment as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent]
	[]
}

pub struct SkipCheckIfFeeless<T, S>(core::marker::PhantomData<(T, S)>);
