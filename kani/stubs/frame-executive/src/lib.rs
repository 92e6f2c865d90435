use core::marker::PhantomData;
pub struct Executive<A, B, C, D, E>(PhantomData<(A, B, C, D, E)>);
