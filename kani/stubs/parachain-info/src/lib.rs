//! parachain-info as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[]
	[]
}

use core::marker::PhantomData;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Id(pub u32);
impl From<Id> for u32 {
	fn from(i: Id) -> u32 {
		i.0
	}
}
impl<T> Pallet<T> {
	/// The parachain's id; not read by the code under proof.
	pub fn parachain_id() -> Id {
		Id(2281)
	}
}
#[allow(dead_code)]
type P<T> = PhantomData<T>;
