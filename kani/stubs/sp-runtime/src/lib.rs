//! sp-runtime as used by the code under proof: assumed contracts of arithmetic helpers, errors, lookups and origins.
#![allow(static_mut_refs)]

pub use parity_scale_codec as codec;
pub use scale_info;
pub use frame_support_macros::RuntimeDebug;

pub mod bounded;
pub mod errors;
pub mod per_things;
pub mod traits;

pub use bounded::BoundedVec;
pub use errors::*;
pub use per_things::*;
pub use traits::{SaturatedConversion, Saturating};

use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub use std::borrow::Cow;

#[macro_export]
macro_rules! runtime_debug_unused {
	() => {};
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo, Hash)]
pub struct H256(pub [u8; 32]);
impl H256 {
	pub const fn zero() -> Self {
		H256([0; 32])
	}
	pub fn repeat_byte(b: u8) -> Self {
		H256([b; 32])
	}
	pub fn as_bytes(&self) -> &[u8] {
		&self.0
	}
	pub fn to_fixed_bytes(self) -> [u8; 32] {
		self.0
	}
	pub fn is_zero(&self) -> bool {
		*self == Self::zero()
	}
}
impl AsRef<[u8]> for H256 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl From<[u8; 32]> for H256 {
	fn from(x: [u8; 32]) -> Self {
		H256(x)
	}
}
impl From<H256> for [u8; 32] {
	fn from(x: H256) -> Self {
		x.0
	}
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo, Hash)]
pub struct H160(pub [u8; 20]);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct U256(pub [u64; 4]);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct KeyTypeId(pub [u8; 4]);

/// 32-byte account id.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, Hash)]
pub struct AccountId32([u8; 32]);
impl AccountId32 {
	pub const fn new(x: [u8; 32]) -> Self {
		AccountId32(x)
	}
}
impl From<[u8; 32]> for AccountId32 {
	fn from(x: [u8; 32]) -> Self {
		AccountId32(x)
	}
}
impl From<AccountId32> for [u8; 32] {
	fn from(x: AccountId32) -> Self {
		x.0
	}
}
impl AsRef<[u8]> for AccountId32 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsRef<[u8; 32]> for AccountId32 {
	fn as_ref(&self) -> &[u8; 32] {
		&self.0
	}
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo, Hash)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(AccountIndex),
	Raw(Vec<u8>),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
impl<A, I> From<A> for MultiAddress<A, I> {
	fn from(a: A) -> Self {
		MultiAddress::Id(a)
	}
}

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum Never {}

/// Copies a text into a fixed array, zero padded, as sp-runtime does.
pub const fn str_array<const N: usize>(s: &str) -> [u8; N] {
	let mut a = [0u8; N];
	let b = s.as_bytes();
	let mut i = 0;
	while i < b.len() && i < N {
		a[i] = b[i];
		i += 1;
	}
	a
}

/// `morph_types!` of sp-runtime: declares types with a `Morph`/`TryMorph` closure.
#[macro_export]
macro_rules! morph_types {
	(
		@DECL $( #[doc = $doc:expr] )* $vq:vis $name:ident ()
	) => {
		$( #[doc = $doc] )* $vq struct $name;
	};
	(
		@DECL $( #[doc = $doc:expr] )* $vq:vis $name:ident ( $( $bound_id:ident ),+ )
	) => {
		$( #[doc = $doc] )*
		$vq struct $name < $($bound_id,)* > ( $crate::traits::PhantomData< ( $($bound_id,)* ) > ) ;
	};
	(
		@IMPL $name:ty : ( $( $bounds:tt )* ) ( $( $where:tt )* ) = |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
	) => {
		impl<$($bounds)*> $crate::traits::Morph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome { $( $ex )* }
		}
	};
	(
		@IMPL_TRY $name:ty : ( $( $bounds:tt )* ) ( $( $where:tt )* ) = |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
	) => {
		impl<$($bounds)*> $crate::traits::TryMorph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn try_morph($var: $var_type) -> Result<Self::Outcome, ()> { $( $ex )* }
		}
	};
	(
		@IMPL $name:ty : () ( $( $where:tt )* ) = |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
	) => {
		impl $crate::traits::Morph<$var_type> for $name $( $where )? {
			type Outcome = $outcome;
			fn morph($var: $var_type) -> Self::Outcome { $( $ex )* }
		}
	};
	(
		@IMPL_BOTH $name:ty : () ( $( $where:tt )* ) = |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
	) => {
		$crate::morph_types! { @IMPL $name : () ($($where)*) = |$var: $var_type| -> $outcome { $($ex)* } }
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$(: $type:tt)?
		= |_| -> $outcome:ty { $( $ex:expr )* };
		$( $rest:tt )*
	) => {
		$crate::morph_types! {
			$( #[doc = $doc] )* $vq type $name
			$( < X $( , $bound_id $( : $bound_head $( | $bound_tail )* )? )+ > )?
			EXTRA_GENERIC(X)
			$(: $type)?
			= |_x: X| -> $outcome { $( $ex )* };
			$( $rest )*
		}
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$( EXTRA_GENERIC($extra:ident) )?
		= |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
		$( where $( $where_path:ty : $where_bound_head:path $( | $where_bound_tail:path )* ),* )?;
		$( $rest:tt )*
	) => {
		$crate::morph_types! { @DECL $( #[doc = $doc] )* $vq $name ( $( $( $bound_id ),+ )? ) }
		$crate::morph_types! {
			@IMPL $name $( < $( $bound_id ),* > )? :
			( $( $( $bound_id $( : $bound_head $( + $bound_tail )* )? , )+ )? $( $extra )? )
			( $( where $( $where_path : $where_bound_head $( + $where_bound_tail )* ),* )? )
			= |$var: $var_type| -> $outcome { $( $ex )* }
		}
		$crate::morph_types! { $($rest)* }
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$( EXTRA_GENERIC($extra:ident) )?
		: Morph
		= |$var:ident: $var_type:ty| -> $outcome:ty { $( $ex:expr )* }
		$( where $( $where_path:ty : $where_bound_head:path $( | $where_bound_tail:path )* ),* )?;
		$( $rest:tt )*
	) => {
		$crate::morph_types! { @DECL $( #[doc = $doc] )* $vq $name ( $( $( $bound_id ),+ )? ) }
		$crate::morph_types! {
			@IMPL $name $( < $( $bound_id ),* > )? :
			( $( $( $bound_id $( : $bound_head $( + $bound_tail )* )? , )+ )? $( $extra )? )
			( $( where $( $where_path : $where_bound_head $( + $where_bound_tail )* ),* )? )
			= |$var: $var_type| -> $outcome { $( $ex )* }
		}
		$crate::morph_types! { $($rest)* }
	};
	(
		$( #[doc = $doc:expr] )* $vq:vis type $name:ident
		$( < $( $bound_id:ident $( : $bound_head:path $( | $bound_tail:path )* )? ),+ > )?
		$( EXTRA_GENERIC($extra:ident) )?
		: TryMorph
		= |$var:ident: $var_type:ty| -> Result<$outcome:ty, ()> { $( $ex:expr )* }
		$( where $( $where_path:ty : $where_bound_head:path $( | $where_bound_tail:path )* ),* )?;
		$( $rest:tt )*
	) => {
		$crate::morph_types! { @DECL $( #[doc = $doc] )* $vq $name ( $( $( $bound_id ),+ )? ) }
		$crate::morph_types! {
			@IMPL_TRY $name $( < $( $bound_id ),* > )? :
			( $( $( $bound_id $( : $bound_head $( + $bound_tail )* )? , )+ )? $( $extra )? )
			( $( where $( $where_path : $where_bound_head $( + $where_bound_tail )* ),* )? )
			= |$var: $var_type| -> $outcome { $( $ex )* }
		}
		$crate::morph_types! { $($rest)* }
	};
	() => {};
}

// --- names the runtime refers to, without behaviour -------------------------------------------
pub mod generic {
	use core::marker::PhantomData;
	pub struct Block<H, E>(PhantomData<(H, E)>);
	pub struct SignedBlock<B>(PhantomData<B>);
	pub struct BlockId<B>(PhantomData<B>);
	pub struct Header<N, H>(PhantomData<(N, H)>);
	pub struct UncheckedExtrinsic<A, C, S, E>(PhantomData<(A, C, S, E)>);
	pub struct SignedPayload<C, E>(PhantomData<(C, E)>);
	pub struct CheckedExtrinsic<A, C, E>(PhantomData<(A, C, E)>);
}
pub mod transaction_validity {
	pub enum InvalidTransaction {}
	pub enum TransactionSource {}
	pub enum TransactionValidity {}
}
pub struct ApplyExtrinsicResult;
#[macro_export]
macro_rules! create_runtime_str {
	( $y:expr ) => { $y };
}
#[macro_export]
macro_rules! impl_opaque_keys {
	( pub struct $name:ident { $( pub $field:ident: $ty:ty, )* } ) => {
		pub struct $name;
		impl $crate::traits::OpaqueKeys for $name {
			type KeyTypeIdProviders = ( $( $ty, )* );
		}
	};
}

/// `parameter_types!`, for the plain `const` form and the computed form.
#[macro_export]
macro_rules! parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr $(; $($rest:tt)*)? ) => (
		$( #[ $attr ] )* $vis struct $name $(< $($ty_params),* >( $($crate::traits::PhantomData<$ty_params>),* ))?;
		$crate::parameter_types!(IMPL_CONST $name , $type , $value $( $(, $ty_params)* )?);
		$( $crate::parameter_types!( $($rest)* ); )?
	);
	( $( #[ $attr:meta ] )* $vis:vis $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr $(; $($rest:tt)*)? ) => (
		$( #[ $attr ] )* $vis struct $name $(< $($ty_params),* >( $($crate::traits::PhantomData<$ty_params>),* ))?;
		$crate::parameter_types!(IMPL_CONST $name , $type , $value $( $(, $ty_params)* )?);
		$( $crate::parameter_types!( $($rest)* ); )?
	);
	( $( #[ $attr:meta ] )* $vis:vis storage $name:ident: $type:ty = $value:expr $(; $($rest:tt)*)? ) => (
		$crate::parameter_types!( $vis $name: $type = $value $(; $($rest)*)? );
	);
	( $( #[ $attr:meta ] )* $vis:vis static $name:ident: $type:ty = $value:expr $(; $($rest:tt)*)? ) => (
		$crate::parameter_types!( $vis $name: $type = $value $(; $($rest)*)? );
	);
	() => ();
	(IMPL_CONST $name:ident, $type:ty, $value:expr $(, $ty_params:ident)*) => {
		impl< $($ty_params),* > $name< $($ty_params),* > {
			/// Returns the value of this parameter type.
			pub fn get() -> $type { $value }
		}
		impl<_I: From<$type> $(, $ty_params)*> $crate::traits::Get<_I> for $name< $($ty_params),* > {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl< $($ty_params),* > $crate::traits::TypedGet for $name< $($ty_params),* > {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
	};
}

