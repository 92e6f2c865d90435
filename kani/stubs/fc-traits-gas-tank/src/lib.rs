//! Names of the gas-tank traits the runtime refers to.
pub struct NonFungibleGasBurner<T, F, I>(core::marker::PhantomData<(T, F, I)>);
