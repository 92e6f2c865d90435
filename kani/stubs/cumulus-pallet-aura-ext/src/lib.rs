//! cumulus-pallet-aura-ext as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[]
	[]
}

pub struct FixedVelocityConsensusHook<T, const A: u32, const B: u32, const C: u32>(core::marker::PhantomData<T>);
pub struct BlockExecutor<T, I>(core::marker::PhantomData<(T, I)>);
