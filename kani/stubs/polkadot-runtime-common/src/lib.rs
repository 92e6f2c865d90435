//! Names of polkadot-runtime-common the runtime refers to.
use core::marker::PhantomData;
pub mod xcm_sender {
	pub struct NoPriceForMessageDelivery<I>(core::marker::PhantomData<I>);
	pub struct ExponentialPrice<A, B, C, D>(core::marker::PhantomData<(A, B, C, D)>);
}
#[macro_export]
macro_rules! prod_or_fast {
	( $prod:expr, $test:expr ) => { $prod };
}
pub struct BlockHashCount;
pub struct SlowAdjustingFeeUpdate<T>(PhantomData<T>);
