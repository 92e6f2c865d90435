//! Names of /repo/runtime/common the runtime refers to.
pub mod impls {
	pub struct AssetsToBlockAuthor<T, I = ()>(core::marker::PhantomData<(T, I)>);
}
