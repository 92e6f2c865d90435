//! frame-support as used by the code under proof. Every behaviour here is an assumed contract of FRAME.
#![allow(static_mut_refs)]

pub use frame_support_macros::{derive_impl, pallet, runtime, runtime_version, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug};
pub use frame_support_macros::DebugNoBound as RuntimeDebugNoBound;
pub use parity_scale_codec;
pub use scale_info;
pub use sp_runtime;

pub mod dispatch;
pub mod storage;
pub mod traits;
pub mod weights;

use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub use sp_runtime::{bounded_vec, parameter_types, BoundedVec};
pub use storage::types::{StorageDoubleMap, StorageMap, StorageValue};
pub use traits::Get;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Never {}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::traits::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}

pub trait Parameter: parity_scale_codec::Codec + parity_scale_codec::EncodeLike + Clone + Eq + core::fmt::Debug + TypeInfo {}
impl<T: parity_scale_codec::Codec + parity_scale_codec::EncodeLike + Clone + Eq + core::fmt::Debug + TypeInfo> Parameter for T {}

macro_rules! hashers { ($($n:ident)*) => { $(pub struct $n;)* } }
hashers!(Blake2_128Concat Blake2_128 Blake2_256 Twox64Concat Twox128 Twox256 Identity);

#[macro_export]
macro_rules! ensure {
	( $x:expr, $y:expr $(,)? ) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! fail {
	( $y:expr ) => {{
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! assert_ok {
	( $x:expr $(,)? ) => {
		assert!($x.is_ok())
	};
}
#[macro_export]
macro_rules! defensive {
	( $( $x:tt )* ) => {};
}
#[macro_export]
macro_rules! defensive_assert {
	( $( $x:tt )* ) => {};
}

#[macro_export]
macro_rules! match_types {
	( $vis:vis type $name:ident: impl Contains<$typ:ty> = { $body:pat }; $( $rest:tt )* ) => {
		$vis struct $name;
		impl $crate::traits::Contains<$typ> for $name { fn contains(l: &$typ) -> bool { matches!(l, $body) } }
		$crate::match_types!( $( $rest )* );
	};
	() => {};
}

/// `ord_parameter_types!` as in frame-support.
#[macro_export]
macro_rules! ord_parameter_types {
	( $( $vis:vis const $name:ident: $type:ty = $value:expr; )* ) => { $(
		$vis struct $name;
		impl $crate::traits::Get<$type> for $name { fn get() -> $type { $value } }
		impl $crate::traits::SortedMembers<$type> for $name {
			fn contains(t: &$type) -> bool { &$value == t }
			fn sorted_members() -> Vec<$type> { vec![$value] }
		}
	)* };
}

pub mod pallet_prelude {
	pub use crate::dispatch::{DispatchClass, DispatchResult, DispatchResultWithPostInfo, Pays, PostDispatchInfo};
	pub use crate::storage::types::{
		CountedStorageMap, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageValue, ValueQuery,
	};
	pub use crate::traits::{
		BuildGenesisConfig, ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, Hooks, IsType,
		StorageVersion, TypedGet,
	};
	pub use crate::weights::Weight;
	pub use crate::{
		defensive, defensive_assert, ensure, storage, Blake2_128, Blake2_128Concat, Blake2_256, CloneNoBound, DebugNoBound, EqNoBound,
		Identity, PalletId, Parameter, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound, Twox128, Twox256, Twox64Concat,
	};
	pub use core::marker::PhantomData;
	pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	pub use scale_info::TypeInfo;
	pub use sp_runtime::traits::{MaybeSerializeDeserialize, Member};
	pub use sp_runtime::{BoundedVec, DispatchError};
}
pub mod genesis_builder_helper {
	pub fn build_state() {}
	pub fn get_preset() {}
}

/// Position of a pallet in the runtime.
pub trait PalletIndex<P> {
	const INDEX: usize;
}
pub mod instances {
	macro_rules! instances { ($($n:ident)*) => { $(
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub struct $n;
	)* } }
	instances!(Instance1 Instance2 Instance3 Instance4);
}

/// A pallet the code under proof only refers to: its configuration items and its calls, without their
/// arguments and without behaviour.
#[macro_export]
macro_rules! model_pallet {
	( @items [ $( $call:ident )* ] ) => {
		pub struct Pallet<T>(core::marker::PhantomData<T>);
		#[allow(non_camel_case_types)]
		#[derive($crate::CloneNoBound, $crate::PartialEqNoBound, $crate::EqNoBound, $crate::DebugNoBound)]
		pub enum Call<T: Config> {
			$( $call {}, )*
			__Ignore(core::marker::PhantomData<T>, core::convert::Infallible),
		}
		impl<T: Config> Call<T> {
			pub const NAMES: &'static [&'static str] = &[ $( stringify!($call) ),* ];
			#[allow(unused_mut, unused_assignments, unreachable_code)]
			pub fn nth(_i: usize) -> Self {
				let mut _n = 0;
				$( if _i == _n { return Call::$call {} } _n += 1; )*
				unreachable!()
			}
			pub fn name(&self) -> &'static str {
				match self { $( Call::$call {} => stringify!($call), )* Call::__Ignore(..) => unreachable!() }
			}
		}
		pub mod weights {
			pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
		}
	};
	( [ $( $ty:ident )* ] [ $( $call:ident )* ] ) => {
		pub trait Config: frame_system::Config {
			$( type $ty: 'static; )*
		}
		$crate::model_pallet! { @items [ $( $call )* ] }
	};
}
#[macro_export]
macro_rules! model_pallet_instance {
	( [ $( $ty:ident )* ] [ $( $call:ident )* ] ) => {
		#[allow(unused_imports)]
		use core::marker::PhantomData;
		pub use $crate::instances::{Instance1, Instance2};
		pub trait Config<I: 'static = ()>: frame_system::Config {
			$( type $ty: 'static; )*
		}
		$crate::model_pallet_instance! { @items [ $( $call )* ] }
	};
	( @items [ $( $call:ident )* ] ) => {
		pub struct Pallet<T, I = ()>(core::marker::PhantomData<(T, I)>);
		#[allow(non_camel_case_types)]
		#[derive($crate::CloneNoBound, $crate::PartialEqNoBound, $crate::EqNoBound, $crate::DebugNoBound)]
		pub enum Call<T: Config<I>, I: 'static = ()> {
			$( $call {}, )*
			__Ignore(core::marker::PhantomData<(T, I)>, core::convert::Infallible),
		}
		impl<T: Config<I>, I: 'static> Call<T, I> {
			pub const NAMES: &'static [&'static str] = &[ $( stringify!($call) ),* ];
			#[allow(unused_mut, unused_assignments, unreachable_code)]
			pub fn nth(_i: usize) -> Self {
				let mut _n = 0;
				$( if _i == _n { return Call::$call {} } _n += 1; )*
				unreachable!()
			}
			pub fn name(&self) -> &'static str {
				match self { $( Call::$call {} => stringify!($call), )* Call::__Ignore(..) => unreachable!() }
			}
		}
		pub mod weights {
			pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
		}
	};
}
