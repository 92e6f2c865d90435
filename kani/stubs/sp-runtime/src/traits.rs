pub use crate::bounded::BoundedVec;
use core::fmt::Debug;
pub use core::marker::PhantomData;
pub use core::ops::{Add, AddAssign, Div, Mul, MulAssign, Rem, Sub, SubAssign};
use parity_scale_codec::{Codec, Decode, Encode, Error, HasCompact, Input, MaxEncodedLen};
use scale_info::TypeInfo;

// --- constants ---------------------------------------------------------------------------
pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
macro_rules! consts { ($($n:ident $t:ty),*) => { $(
	#[derive(Debug, Clone, Copy, Default)]
	pub struct $n<const N: $t>;
	impl<const N: $t> Get<$t> for $n<N> { fn get() -> $t { N } }
	impl<const N: $t> Get<Option<$t>> for $n<N> { fn get() -> Option<$t> { Some(N) } }
	impl<const N: $t> TypedGet for $n<N> { type Type = $t; fn get() -> $t { N } }
)* } }
consts!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI32 i32);
pub struct ConstUint<const N: u128>;
impl<const N: u128> Get<u128> for ConstUint<N> {
	fn get() -> u128 {
		N
	}
}
impl<const N: u128> Get<u32> for ConstUint<N> {
	fn get() -> u32 {
		N as u32
	}
}
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
impl<I: Iterator, B: Get<u32>> TryCollect<BoundedVec<I::Item, B>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedVec<I::Item, B>, &'static str> {
		BoundedVec::try_from(self.collect::<Vec<_>>()).map_err(|_| "iterator length too big")
	}
}

// --- numbers -----------------------------------------------------------------------------
pub trait Zero: Sized {
	fn zero() -> Self;
	fn is_zero(&self) -> bool;
}
pub trait One: Sized {
	fn one() -> Self;
}
pub trait Bounded {
	fn min_value() -> Self;
	fn max_value() -> Self;
}
pub trait CheckedAdd: Sized {
	fn checked_add(&self, o: &Self) -> Option<Self>;
}
pub trait CheckedSub: Sized {
	fn checked_sub(&self, o: &Self) -> Option<Self>;
}
pub trait CheckedMul: Sized {
	fn checked_mul(&self, o: &Self) -> Option<Self>;
}
pub trait CheckedDiv: Sized {
	fn checked_div(&self, o: &Self) -> Option<Self>;
}
pub trait Saturating: Sized {
	fn saturating_add(self, o: Self) -> Self;
	fn saturating_sub(self, o: Self) -> Self;
	fn saturating_mul(self, o: Self) -> Self;
	fn saturating_inc(&mut self);
	fn saturating_dec(&mut self);
	fn saturating_accrue(&mut self, o: Self);
	fn saturating_reduce(&mut self, o: Self);
	fn saturating_less_one(self) -> Self;
	fn saturating_plus_one(self) -> Self;
}
pub trait UniqueSaturatedInto<T>: Sized {
	fn unique_saturated_into(self) -> T;
}
pub trait UniqueSaturatedFrom<T>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait SaturatedConversion: Sized {
	fn saturated_from<T>(t: T) -> Self
	where
		Self: UniqueSaturatedFrom<T>,
	{
		<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
	}
	fn saturated_into<T>(self) -> T
	where
		Self: UniqueSaturatedInto<T>,
	{
		<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
	}
}
impl<T: Sized> SaturatedConversion for T {}

macro_rules! num { ($($t:ident)*) => { $(
	impl Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
	impl One for $t { fn one() -> Self { 1 } }
	impl Bounded for $t { fn min_value() -> Self { $t::MIN } fn max_value() -> Self { $t::MAX } }
	impl CheckedAdd for $t { fn checked_add(&self, o: &Self) -> Option<Self> { $t::checked_add(*self, *o) } }
	impl CheckedSub for $t { fn checked_sub(&self, o: &Self) -> Option<Self> { $t::checked_sub(*self, *o) } }
	impl CheckedMul for $t { fn checked_mul(&self, o: &Self) -> Option<Self> { $t::checked_mul(*self, *o) } }
	impl CheckedDiv for $t { fn checked_div(&self, o: &Self) -> Option<Self> { $t::checked_div(*self, *o) } }
	impl Saturating for $t {
		fn saturating_add(self, o: Self) -> Self { $t::saturating_add(self, o) }
		fn saturating_sub(self, o: Self) -> Self { $t::saturating_sub(self, o) }
		fn saturating_mul(self, o: Self) -> Self { $t::saturating_mul(self, o) }
		fn saturating_inc(&mut self) { *self = $t::saturating_add(*self, 1) }
		fn saturating_dec(&mut self) { *self = $t::saturating_sub(*self, 1) }
		fn saturating_accrue(&mut self, o: Self) { *self = $t::saturating_add(*self, o) }
		fn saturating_reduce(&mut self, o: Self) { *self = $t::saturating_sub(*self, o) }
		fn saturating_less_one(self) -> Self { $t::saturating_sub(self, 1) }
		fn saturating_plus_one(self) -> Self { $t::saturating_add(self, 1) }
	}
	num!(@ $t u8 u16 u32 u64 u128 usize);
)* };
(@ $t:ident $($u:ident)*) => { $(
	impl UniqueSaturatedInto<$u> for $t {
		fn unique_saturated_into(self) -> $u { if self as u128 > $u::MAX as u128 { $u::MAX } else { self as $u } }
	}
	impl UniqueSaturatedFrom<$u> for $t {
		fn unique_saturated_from(x: $u) -> $t { if x as u128 > $t::MAX as u128 { $t::MAX } else { x as $t } }
	}
)* } }
num!(u8 u16 u32 u64 u128 usize);

pub trait BaseArithmetic:
	From<u8>
	+ Zero
	+ One
	+ Bounded
	+ Add<Output = Self>
	+ AddAssign
	+ Sub<Output = Self>
	+ SubAssign
	+ Mul<Output = Self>
	+ MulAssign
	+ Div<Output = Self>
	+ Rem<Output = Self>
	+ CheckedAdd
	+ CheckedSub
	+ CheckedMul
	+ CheckedDiv
	+ Saturating
	+ Ord
	+ Clone
	+ Copy
	+ HasCompact
	+ TryInto<u8>
	+ TryInto<u16>
	+ TryInto<u32>
	+ TryInto<u64>
	+ TryInto<u128>
	+ UniqueSaturatedInto<u8>
	+ UniqueSaturatedInto<u16>
	+ UniqueSaturatedInto<u32>
	+ UniqueSaturatedInto<u64>
	+ UniqueSaturatedInto<u128>
	+ UniqueSaturatedFrom<u8>
	+ UniqueSaturatedFrom<u16>
	+ UniqueSaturatedFrom<u32>
	+ UniqueSaturatedFrom<u64>
	+ UniqueSaturatedFrom<u128>
{
}
pub trait AtLeast8Bit: BaseArithmetic {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
pub trait AtLeast32Bit: AtLeast16Bit + From<u32> {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit {}
macro_rules! atleast { ($($t:ty),*) => { $(impl BaseArithmetic for $t {} impl AtLeast16Bit for $t {} impl AtLeast32Bit for $t {} impl AtLeast32BitUnsigned for $t {})* } }
atleast!(u32, u64, u128);

// --- bounds ------------------------------------------------------------------------------
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait MaybeSerializeDeserialize {}
impl<T> MaybeSerializeDeserialize for T {}
pub trait MaybeSerialize {}
impl<T> MaybeSerialize for T {}
pub trait MaybeDisplay {}
impl<T> MaybeDisplay for T {}

// --- dispatch ----------------------------------------------------------------------------
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct BadOrigin;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct LookupError;
impl From<BadOrigin> for &'static str {
	fn from(_: BadOrigin) -> &'static str {
		"Bad origin"
	}
}
pub trait Dispatchable {
	type RuntimeOrigin: Debug;
	type Config;
	type Info;
	type PostInfo: Eq + PartialEq + Clone + Copy + Default + Debug;
	fn dispatch(self, origin: Self::RuntimeOrigin) -> crate::DispatchResultWithInfo<Self::PostInfo>;
}
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
pub trait StaticLookup {
	type Source: Codec + Clone + PartialEq + Debug + TypeInfo;
	type Target;
	fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
	fn unlookup(t: Self::Target) -> Self::Source;
}
pub trait Lookup {
	type Source;
	type Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
}
pub struct IdentityLookup<T>(PhantomData<T>);
impl<T: Codec + Clone + PartialEq + Debug + TypeInfo> StaticLookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(x: T) -> Result<T, LookupError> {
		Ok(x)
	}
	fn unlookup(x: T) -> T {
		x
	}
}
pub struct AccountIdLookup<AccountId, AccountIndex>(PhantomData<(AccountId, AccountIndex)>);
impl<AccountId, AccountIndex> StaticLookup for AccountIdLookup<AccountId, AccountIndex>
where
	AccountId: Codec + Clone + PartialEq + Debug + TypeInfo + 'static,
	AccountIndex: Codec + Clone + PartialEq + Debug + HasCompact + TypeInfo + 'static,
	crate::MultiAddress<AccountId, AccountIndex>: Codec + TypeInfo,
{
	type Source = crate::MultiAddress<AccountId, AccountIndex>;
	type Target = AccountId;
	fn lookup(x: Self::Source) -> Result<AccountId, LookupError> {
		match x {
			crate::MultiAddress::Id(i) => Ok(i),
			_ => Err(LookupError),
		}
	}
	fn unlookup(x: AccountId) -> Self::Source {
		crate::MultiAddress::Id(x)
	}
}

// --- conversions -------------------------------------------------------------------------
pub trait Convert<A, B> {
	fn convert(a: A) -> B;
}
impl<A, B: Default> Convert<A, B> for () {
	fn convert(_: A) -> B {
		B::default()
	}
}
pub struct ConvertInto;
impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
	fn convert(a: A) -> B {
		a.into()
	}
}
pub trait ConvertBack<A, B>: Convert<A, B> {
	fn convert_back(b: B) -> A;
}
pub struct Identity;
impl<T> Convert<T, T> for Identity {
	fn convert(a: T) -> T {
		a
	}
}
pub trait TryConvert<A, B> {
	fn try_convert(a: A) -> Result<B, A>;
}
impl<A, B> TryConvert<A, B> for () {
	fn try_convert(a: A) -> Result<B, A> {
		Err(a)
	}
}
macro_rules! try_convert_tuple { ($($n:ident)+) => {
	impl<A__, B__, $($n: TryConvert<A__, B__>),+> TryConvert<A__, B__> for ($($n,)+) {
		fn try_convert(a: A__) -> Result<B__, A__> {
			$( let a = match $n::try_convert(a) { Ok(b) => return Ok(b), Err(a) => a }; )+
			Err(a)
		}
	}
} }
try_convert_tuple!(A);
try_convert_tuple!(A B);
try_convert_tuple!(A B C);
try_convert_tuple!(A B C D);
pub trait MaybeConvert<A, B> {
	fn maybe_convert(a: A) -> Option<B>;
}
pub trait MaybeEquivalence<A, B> {
	fn convert(a: &A) -> Option<B>;
	fn convert_back(b: &B) -> Option<A>;
}
macro_rules! maybe_equivalence_tuple { ($($n:ident)+) => {
	impl<A__, B__, $($n: MaybeEquivalence<A__, B__>),+> MaybeEquivalence<A__, B__> for ($($n,)+) {
		fn convert(a: &A__) -> Option<B__> { $( if let Some(b) = $n::convert(a) { return Some(b) } )+ None }
		fn convert_back(b: &B__) -> Option<A__> { $( if let Some(a) = $n::convert_back(b) { return Some(a) } )+ None }
	}
} }
maybe_equivalence_tuple!(A);
maybe_equivalence_tuple!(A B);
maybe_equivalence_tuple!(A B C);
pub trait Morph<A> {
	type Outcome;
	fn morph(a: A) -> Self::Outcome;
}
impl<T> Morph<T> for Identity {
	type Outcome = T;
	fn morph(a: T) -> T {
		a
	}
}
pub trait TryMorph<A> {
	type Outcome;
	fn try_morph(a: A) -> Result<Self::Outcome, ()>;
}
impl<T> TryMorph<T> for Identity {
	type Outcome = T;
	fn try_morph(a: T) -> Result<T, ()> {
		Ok(a)
	}
}
pub struct Replace<V>(PhantomData<V>);
impl<T, V: TypedGet> Morph<T> for Replace<V> {
	type Outcome = V::Type;
	fn morph(_: T) -> V::Type {
		V::get()
	}
}
impl<T, V: TypedGet> TryMorph<T> for Replace<V> {
	type Outcome = V::Type;
	fn try_morph(_: T) -> Result<V::Type, ()> {
		Ok(V::get())
	}
}
pub struct ReplaceWithDefault<V>(PhantomData<V>);
impl<T, V: Default> Morph<T> for ReplaceWithDefault<V> {
	type Outcome = V;
	fn morph(_: T) -> V {
		V::default()
	}
}
pub struct ReduceBy<N>(PhantomData<N>);
impl<N: TypedGet> TryMorph<N::Type> for ReduceBy<N>
where
	N::Type: CheckedSub,
{
	type Outcome = N::Type;
	fn try_morph(r: N::Type) -> Result<N::Type, ()> {
		r.checked_sub(&N::get()).ok_or(())
	}
}

// --- accounts ----------------------------------------------------------------------------
pub struct TrailingZeroInput<'a>(pub &'a [u8]);
impl<'a> Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		let len_from_inner = if into.len() < self.0.len() { into.len() } else { self.0.len() };
		into[..len_from_inner].copy_from_slice(&self.0[..len_from_inner]);
		for i in &mut into[len_from_inner..] {
			*i = 0;
		}
		self.0 = &self.0[len_from_inner..];
		Ok(())
	}
}
pub trait TypeId {
	const TYPE_ID: [u8; 4];
}
/// As sp-runtime: account bytes are the type id, the id and the sub id, truncated or zero padded.
pub trait AccountIdConversion<AccountId>: Sized {
	fn into_account_truncating(&self) -> AccountId {
		self.into_sub_account_truncating(&())
	}
	fn try_into_account(&self) -> Option<AccountId> {
		self.try_into_sub_account(&())
	}
	fn try_from_account(a: &AccountId) -> Option<Self> {
		Self::try_from_sub_account::<()>(a).map(|x| x.0)
	}
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
	fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
}
impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
		(Id::TYPE_ID, self, sub)
			.using_encoded(|b| T::decode(&mut TrailingZeroInput(b)))
			.expect("All byte sequences are valid `AccountIds`; qed")
	}
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
		let encoded_seed = (Id::TYPE_ID, self, sub).encode();
		let account = T::decode(&mut TrailingZeroInput(&encoded_seed)).expect("All byte sequences are valid `AccountIds`; qed");
		if encoded_seed.len() <= account.encode().len() {
			Some(account)
		} else {
			None
		}
	}
	fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
		x.using_encoded(|d| {
			if d[0] != Id::TYPE_ID[0] || d[1] != Id::TYPE_ID[1] || d[2] != Id::TYPE_ID[2] || d[3] != Id::TYPE_ID[3] {
				return None;
			}
			let mut cursor = &d[4..];
			let result = Decode::decode(&mut cursor).ok()?;
			let mut i = 0;
			while i < cursor.len() {
				if cursor[i] != 0 {
					return None;
				}
				i += 1;
			}
			Some(result)
		})
	}
}

pub trait IdentifyAccount {
	type AccountId;
	fn into_account(self) -> Self::AccountId;
}
pub trait Verify {
	type Signer: IdentifyAccount;
}

// --- hashing -----------------------------------------------------------------------------
pub trait Hash: 'static + Debug + Clone + Eq + PartialEq {
	type Output: Member + Codec + Copy + Default + MaxEncodedLen + TypeInfo + Ord + AsRef<[u8]>;
	fn hash(s: &[u8]) -> Self::Output;
	fn hash_of<S: Encode>(s: &S) -> Self::Output {
		Encode::using_encoded(s, Self::hash)
	}
}
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo)]
pub struct BlakeTwo256;
impl Hash for BlakeTwo256 {
	type Output = crate::H256;
	fn hash(s: &[u8]) -> crate::H256 {
		nd::model_gap!(s.len() < 32, "blake2: input longer than the model covers");
		let mut out = [0u8; 32];
		out[..s.len()].copy_from_slice(s);
		out[31] = s.len() as u8;
		crate::H256(out)
	}
}

pub trait OpaqueKeys {
	type KeyTypeIdProviders;
}
pub trait Block {}
