//! Stands in for the generated benchmark numbers.
pub struct WeightInfo<T>(core::marker::PhantomData<T>);
