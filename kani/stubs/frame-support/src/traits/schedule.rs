use core::marker::PhantomData;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{traits::Hash, DispatchError};

pub type Period<B> = (B, u32);
pub type Priority = u8;
pub const LOWEST_PRIORITY: Priority = 255;
pub const HARD_DEADLINE: Priority = 63;
pub const HIGHEST_PRIORITY: Priority = 0;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum DispatchTime<B> {
	At(B),
	After(B),
}

/// A bounded call. `Model` carries the call itself (stands for a preimage that decodes to it).
pub enum Bounded<T, H> {
	Model(T, PhantomData<H>),
}
impl<T: Clone, H> Clone for Bounded<T, H> {
	fn clone(&self) -> Self {
		match self {
			Bounded::Model(t, _) => Bounded::Model(t.clone(), PhantomData),
		}
	}
}
impl<T: PartialEq, H> PartialEq for Bounded<T, H> {
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Bounded::Model(a, _), Bounded::Model(b, _)) => a == b,
		}
	}
}
impl<T: Eq, H> Eq for Bounded<T, H> {}
impl<T: core::fmt::Debug, H> core::fmt::Debug for Bounded<T, H> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		match self {
			Bounded::Model(t, _) => t.fmt(f),
		}
	}
}

pub trait PreimageProvider<H> {}
pub trait QueryPreimage {
	type H: Hash;
	fn peek<T>(bounded: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError>
	where
		T: Clone,
	{
		match bounded {
			Bounded::Model(t, _) => Ok((t.clone(), None)),
		}
	}
}
pub trait StorePreimage: QueryPreimage {
	/// Either the call bounded, or a refusal (too long).
	fn bound<T>(t: T) -> Result<Bounded<T, Self::H>, DispatchError>;
}

pub mod v3 {
	use super::*;
	pub type TaskName = [u8; 32];
	pub trait Anon<BlockNumber, Call, Origin> {
		type Address: Clone;
		type Hasher: Hash;
		fn schedule(
			when: DispatchTime<BlockNumber>,
			maybe_periodic: Option<Period<BlockNumber>>,
			priority: Priority,
			origin: Origin,
			call: Bounded<Call, Self::Hasher>,
		) -> Result<Self::Address, DispatchError>;
		fn cancel(address: Self::Address) -> Result<(), DispatchError>;
	}
	pub trait Named<BlockNumber, Call, Origin> {
		type Address: Clone + core::fmt::Debug;
		type Hasher: Hash;
		fn schedule_named(
			id: TaskName,
			when: DispatchTime<BlockNumber>,
			maybe_periodic: Option<Period<BlockNumber>>,
			priority: Priority,
			origin: Origin,
			call: Bounded<Call, Self::Hasher>,
		) -> Result<Self::Address, DispatchError>;
		fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
		fn reschedule_named(_id: TaskName, _when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError> {
			nd::model_gap!(false, "reschedule_named");
			Err(DispatchError::Unavailable)
		}
		fn next_dispatch_time(_id: TaskName) -> Result<BlockNumber, DispatchError> {
			nd::model_gap!(false, "next_dispatch_time");
			Err(DispatchError::Unavailable)
		}
	}
}
