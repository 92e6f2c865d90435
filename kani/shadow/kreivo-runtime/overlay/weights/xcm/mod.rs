//! Stands in for the generated benchmark numbers.
pub struct KreivoXcmWeight<Call>(core::marker::PhantomData<Call>);
