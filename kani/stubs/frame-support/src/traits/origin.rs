use crate::dispatch::RawOrigin;
use core::marker::PhantomData;
use parity_scale_codec::MaxEncodedLen;
use sp_runtime::traits::{BadOrigin, Get, Morph, TryMorph, TypedGet};

pub trait CallerTrait<AccountId>: crate::Parameter + sp_runtime::traits::Member + From<RawOrigin<AccountId>> {
	fn into_system(self) -> Option<RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		self.as_system_ref().and_then(RawOrigin::as_signed)
	}
	fn is_root(&self) -> bool {
		self.as_system_ref().map_or(false, |o| matches!(o, RawOrigin::Root))
	}
	fn is_none(&self) -> bool {
		self.as_system_ref().map_or(false, |o| matches!(o, RawOrigin::None))
	}
}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Send + Sync + Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, _filter: impl Fn(&Self::Call) -> bool + 'static) {
		nd::model_gap!(false, "origin filters are not modelled");
	}
	fn reset_filter(&mut self) {}
	fn set_caller(&mut self, caller: Self::PalletsOrigin);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, _call: &Self::Call) -> bool {
		true
	}
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(mut self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>
	where
		Self: Clone,
	{
		match f(self.clone().into_caller()) {
			Ok(r) => Ok(r),
			Err(c) => {
				self.set_caller(c);
				Err(self)
			}
		}
	}
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId> {
		self.into_signer()
	}
	fn into_signer(self) -> Option<Self::AccountId>;
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>;
}

pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn ensure_origin_or_root(o: OuterOrigin) -> Result<Option<Self::Success>, BadOrigin>
	where
		OuterOrigin: OriginTrait,
	{
		if o.caller().is_root() {
			return Ok(None);
		} else {
			Self::ensure_origin(o).map(Some)
		}
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
	type Success;
	fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o, a).map_err(|_| BadOrigin)
	}
	fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<EO>(PhantomData<EO>);
impl<OuterOrigin, Argument, EO: EnsureOrigin<OuterOrigin>> EnsureOriginWithArg<OuterOrigin, Argument> for AsEnsureOriginWithArg<EO> {
	type Success = EO::Success;
	fn try_origin(o: OuterOrigin, _: &Argument) -> Result<Self::Success, OuterOrigin> {
		EO::try_origin(o)
	}
}
pub struct MapSuccess<Orig, Mutator>(PhantomData<(Orig, Mutator)>);
impl<O, Orig: EnsureOrigin<O>, Mutator: Morph<Orig::Success>> EnsureOrigin<O> for MapSuccess<Orig, Mutator> {
	type Success = Mutator::Outcome;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		Ok(Mutator::morph(Orig::try_origin(o)?))
	}
}
pub struct TryMapSuccess<Orig, Mutator>(PhantomData<(Orig, Mutator)>);
impl<O: Clone, Orig: EnsureOrigin<O>, Mutator: TryMorph<Orig::Success>> EnsureOrigin<O> for TryMapSuccess<Orig, Mutator> {
	type Success = Mutator::Outcome;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		let orig = o.clone();
		Mutator::try_morph(Orig::try_origin(o)?).map_err(|()| orig)
	}
}
pub struct TryWithMorphedArg<O, A, Morph, Inner, Success>(PhantomData<(O, A, Morph, Inner, Success)>);
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		match L::try_origin(o) {
			Ok(x) => Ok(Either::Left(x)),
			Err(o) => R::try_origin(o).map(Either::Right),
		}
	}
}
pub type EnsureOneOf<L, R> = EitherOfDiverse<L, R>;
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		match L::try_origin(o) {
			Ok(x) => Ok(x),
			Err(o) => R::try_origin(o),
		}
	}
}
impl<O, A, L: EnsureOriginWithArg<O, A>, R: EnsureOriginWithArg<O, A, Success = L::Success>> EnsureOriginWithArg<O, A>
	for EitherOf<L, R>
{
	type Success = L::Success;
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
		match L::try_origin(o, a) {
			Ok(x) => Ok(x),
			Err(o) => R::try_origin(o, a),
		}
	}
}
pub struct NeverEnsureOrigin<Success>(PhantomData<Success>);
impl<O, Success> EnsureOrigin<O> for NeverEnsureOrigin<Success> {
	type Success = Success;
	fn try_origin(o: O) -> Result<Success, O> {
		Err(o)
	}
}
pub struct GetAsEnsure<S>(PhantomData<S>);
#[allow(dead_code)]
fn _unused<T: TypedGet, U: Get<u8>>() {}

/// The outer origin of a runtime with the given pallet origins.
#[macro_export]
macro_rules! model_origin {
	($vis:vis $origin:ident, $caller:ident, $account:ty, $call:ty $(, $variant:ident ( $inner:ty ))* $(,)?) => {
		#[allow(non_camel_case_types)]
		#[derive(Clone, PartialEq, Eq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode, ::parity_scale_codec::MaxEncodedLen, ::scale_info::TypeInfo)]
		$vis enum $caller {
			system($crate::dispatch::RawOrigin<$account>),
			$( $variant($inner), )*
		}
		#[derive(Clone, PartialEq, Eq, Debug)]
		$vis struct $origin { pub caller: $caller }
		impl From<$crate::dispatch::RawOrigin<$account>> for $caller { fn from(x: $crate::dispatch::RawOrigin<$account>) -> Self { $caller::system(x) } }
		impl From<$crate::dispatch::RawOrigin<$account>> for $origin { fn from(x: $crate::dispatch::RawOrigin<$account>) -> Self { $origin { caller: $caller::system(x) } } }
		impl From<$caller> for $origin { fn from(caller: $caller) -> Self { $origin { caller } } }
		impl From<$origin> for $caller { fn from(o: $origin) -> Self { o.caller } }
		impl From<$origin> for Result<$crate::dispatch::RawOrigin<$account>, $origin> {
			fn from(o: $origin) -> Self { match o.caller { $caller::system(x) => Ok(x), #[allow(unreachable_patterns)] caller => Err($origin { caller }) } }
		}
		impl TryFrom<$caller> for $crate::dispatch::RawOrigin<$account> {
			type Error = $caller;
			fn try_from(c: $caller) -> Result<Self, $caller> { match c { $caller::system(x) => Ok(x), #[allow(unreachable_patterns)] c => Err(c) } }
		}
		$(
			impl From<$inner> for $caller { fn from(x: $inner) -> Self { $caller::$variant(x) } }
			impl From<$inner> for $origin { fn from(x: $inner) -> Self { $origin { caller: $caller::$variant(x) } } }
			impl From<$origin> for Result<$inner, $origin> {
				fn from(o: $origin) -> Self { match o.caller { $caller::$variant(x) => Ok(x), caller => Err($origin { caller }) } }
			}
			impl TryFrom<$caller> for $inner {
				type Error = $caller;
				fn try_from(c: $caller) -> Result<Self, $caller> { match c { $caller::$variant(x) => Ok(x), c => Err(c) } }
			}
		)*
		impl $crate::traits::CallerTrait<$account> for $caller {
			fn into_system(self) -> Option<$crate::dispatch::RawOrigin<$account>> { match self { $caller::system(x) => Some(x), #[allow(unreachable_patterns)] _ => None } }
			fn as_system_ref(&self) -> Option<&$crate::dispatch::RawOrigin<$account>> { match self { $caller::system(x) => Some(x), #[allow(unreachable_patterns)] _ => None } }
		}
		impl $crate::traits::OriginTrait for $origin {
			type Call = $call;
			type PalletsOrigin = $caller;
			type AccountId = $account;
			fn set_caller(&mut self, caller: $caller) { self.caller = caller }
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller }
			fn caller(&self) -> &$caller { &self.caller }
			fn into_caller(self) -> $caller { self.caller }
			fn none() -> Self { $crate::dispatch::RawOrigin::None.into() }
			fn root() -> Self { $crate::dispatch::RawOrigin::Root.into() }
			fn signed(by: $account) -> Self { $crate::dispatch::RawOrigin::Signed(by).into() }
			fn into_signer(self) -> Option<$account> { match self.caller { $caller::system($crate::dispatch::RawOrigin::Signed(x)) => Some(x), _ => None } }
			fn as_system_ref(&self) -> Option<&$crate::dispatch::RawOrigin<$account>> { match &self.caller { $caller::system(x) => Some(x), #[allow(unreachable_patterns)] _ => None } }
		}
		#[allow(dead_code)]
		impl $origin {
			pub fn root() -> Self { <Self as $crate::traits::OriginTrait>::root() }
			pub fn signed(by: $account) -> Self { <Self as $crate::traits::OriginTrait>::signed(by) }
			pub fn none() -> Self { <Self as $crate::traits::OriginTrait>::none() }
		}
	};
}
