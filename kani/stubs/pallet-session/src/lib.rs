//! pallet-session as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent ValidatorId ValidatorIdOf ShouldEndSession NextSessionRotation SessionManager SessionHandler Keys WeightInfo]
	[set_keys purge_keys]
}

pub struct PeriodicSessions<P, O>(core::marker::PhantomData<(P, O)>);
pub struct FindAccountFromAuthorIndex<T, I>(core::marker::PhantomData<(T, I)>);
