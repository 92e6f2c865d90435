use core::marker::PhantomData;
pub struct TakeFirstAssetTrader<A, B, C, D, E>(PhantomData<(A, B, C, D, E)>);
pub struct XcmFeesTo32ByteAccount<A, B, C>(PhantomData<(A, B, C)>);
pub struct ParentAsUmp<A, B, C>(PhantomData<(A, B, C)>);
