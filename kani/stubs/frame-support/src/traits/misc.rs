use crate::dispatch::{DispatchInfo, DispatchResultWithPostInfo};
use crate::weights::Weight;
use core::marker::PhantomData;
use parity_scale_codec::{Decode, Encode};
use sp_runtime::{traits::Get, DispatchError, DispatchResult, Perbill};

pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}

pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo {
		DispatchInfo::default()
	}
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait Hooks<B> {
	fn on_initialize(_: B) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_: B) {}
}
pub trait BuildGenesisConfig {
	fn build(&self);
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		StorageVersion(v)
	}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
}
pub struct PalletInfoData {
	pub index: usize,
	pub name: &'static str,
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str {
		""
	}
}
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
}

pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
impl<T> Contains<T> for () {
	fn contains(_: &T) -> bool {
		false
	}
}
pub struct Everything;
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
pub struct Nothing;
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
pub struct Equals<T>(PhantomData<T>);
impl<X: PartialEq, T: Get<X>> Contains<X> for Equals<T> {
	fn contains(t: &X) -> bool {
		t == &T::get()
	}
}
pub struct EverythingBut<E>(PhantomData<E>);
impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> {
	fn contains(t: &T) -> bool {
		!E::contains(t)
	}
}
pub struct TheseExcept<T, E>(PhantomData<(T, E)>);
impl<X, T: Contains<X>, E: Contains<X>> Contains<X> for TheseExcept<T, E> {
	fn contains(t: &X) -> bool {
		T::contains(t) && !E::contains(t)
	}
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<X, A: Contains<X>, B: Contains<X>> Contains<X> for InsideBoth<A, B> {
	fn contains(t: &X) -> bool {
		A::contains(t) && B::contains(t)
	}
}
macro_rules! contains_tuple { ($($n:ident)+) => {
	impl<X, $($n: Contains<X>),+> Contains<X> for ($($n,)+) {
		fn contains(t: &X) -> bool { $( $n::contains(t) || )+ false }
	}
} }
contains_tuple!(A);
contains_tuple!(A B);
contains_tuple!(A B C);
contains_tuple!(A B C D);
contains_tuple!(A B C D E);
contains_tuple!(A B C D E F);
pub trait ContainsPair<A, B> {
	fn contains(a: &A, b: &B) -> bool;
}
impl<A, B> ContainsPair<A, B> for () {
	fn contains(_: &A, _: &B) -> bool {
		false
	}
}
impl<A, B> ContainsPair<A, B> for Everything {
	fn contains(_: &A, _: &B) -> bool {
		true
	}
}
impl<A, B> ContainsPair<A, B> for Nothing {
	fn contains(_: &A, _: &B) -> bool {
		false
	}
}
macro_rules! contains_pair_tuple { ($($n:ident)+) => {
	impl<X, Y, $($n: ContainsPair<X, Y>),+> ContainsPair<X, Y> for ($($n,)+) {
		fn contains(a: &X, b: &Y) -> bool { $( $n::contains(a, b) || )+ false }
	}
} }
contains_pair_tuple!(A);
contains_pair_tuple!(A B);
contains_pair_tuple!(A B C);
contains_pair_tuple!(A B C D);
pub struct FromContainsPair<CP>(PhantomData<CP>);
impl<A, B, CP: ContainsPair<A, B>> Contains<(A, B)> for FromContainsPair<CP> {
	fn contains((a, b): &(A, B)) -> bool {
		CP::contains(a, b)
	}
}

pub trait SortedMembers<T: Ord> {
	fn contains(t: &T) -> bool {
		Self::sorted_members().contains(t)
	}
	fn sorted_members() -> Vec<T>;
	fn count() -> usize {
		Self::sorted_members().len()
	}
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, t: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
pub trait PrivilegeCmp<Origin> {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<core::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<Origin: PartialEq> PrivilegeCmp<Origin> for EqualPrivilegeOnly {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<core::cmp::Ordering> {
		(left == right).then_some(core::cmp::Ordering::Equal)
	}
}

// --- voting --------------------------------------------------------------------------------
pub trait VoteTally<Votes, Class> {
	fn new(c: Class) -> Self;
	fn ayes(&self, c: Class) -> Votes;
	fn support(&self, c: Class) -> Perbill;
	fn approval(&self, c: Class) -> Perbill;
}
pub enum PollStatus<Tally, Moment, Class> {
	None,
	Ongoing(Tally, Class),
	Completed(Moment, bool),
}
impl<Tally, Moment, Class> PollStatus<Tally, Moment, Class> {
	pub fn ensure_ongoing(self) -> Option<(Tally, Class)> {
		match self {
			Self::Ongoing(t, c) => Some((t, c)),
			_ => None,
		}
	}
}
pub trait Polling<Tally> {
	type Index: Ord + PartialOrd + Copy + parity_scale_codec::MaxEncodedLen + crate::Parameter + parity_scale_codec::HasCompact;
	type Votes: Ord + PartialOrd + Copy;
	type Class: crate::Parameter + parity_scale_codec::MaxEncodedLen;
	type Moment;
	fn classes() -> Vec<Self::Class>;
	fn as_ongoing(index: Self::Index) -> Option<(Tally, Self::Class)>;
	fn access_poll<R>(index: Self::Index, f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> R) -> R;
	fn try_access_poll<R>(
		index: Self::Index,
		f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError>;
}

pub trait RankedMembers {
	type AccountId;
	type Rank: Default;
	fn min_rank() -> Self::Rank {
		Default::default()
	}
	fn rank_of(_who: &Self::AccountId) -> Option<Self::Rank> {
		None
	}
	fn induct(who: &Self::AccountId) -> DispatchResult;
	fn promote(_who: &Self::AccountId) -> DispatchResult {
		Err(DispatchError::Unavailable)
	}
	fn demote(_who: &Self::AccountId) -> DispatchResult {
		Err(DispatchError::Unavailable)
	}
}

pub trait Incrementable: Sized {
	fn increment(&self) -> Option<Self>;
	fn initial_value() -> Option<Self>;
}
macro_rules! incrementable { ($($t:ty),*) => { $(impl Incrementable for $t {
	fn increment(&self) -> Option<Self> { let mut v = *self; if v == <$t>::MAX { return None } v += 1; Some(v) }
	fn initial_value() -> Option<Self> { Some(0) }
})* } }
incrementable!(u8, u16, u32, u64, u128);

/// Turns a ratio/count of time units into account inspection; only the shape is needed.
pub trait UnixTime {
	fn now() -> core::time::Duration;
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait Randomness<Output, BlockNumber> {
	fn random(subject: &[u8]) -> (Output, BlockNumber);
}
pub trait FindAuthor<A> {}
pub trait OnUnbalanced<I> {
	fn on_unbalanceds(_: impl Iterator<Item = I>) {}
	fn on_unbalanced(_: I) {}
	fn on_nonzero_unbalanced(_: I) {}
}
impl<I> OnUnbalanced<I> for () {}

/// `Consideration`: tickets for a footprint; only the shape is needed.
#[derive(Default, Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub struct Footprint {
	pub count: u64,
	pub size: u64,
}
pub trait Consideration<AccountId, F>: Sized {
	fn new(who: &AccountId, new: F) -> Result<Self, DispatchError>;
	fn update(self, who: &AccountId, new: F) -> Result<Self, DispatchError>;
	fn drop(self, who: &AccountId) -> DispatchResult;
}
pub struct LinearStoragePrice<Base, Slope, Balance>(PhantomData<(Base, Slope, Balance)>);

pub mod reality {}

pub trait Currency<AccountId> {
	type Balance;
	type PositiveImbalance;
	type NegativeImbalance;
}
pub struct TransformOrigin<E, O, N, C>(PhantomData<(E, O, N, C)>);
pub struct EnqueueWithOrigin<E, O>(PhantomData<(E, O)>);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WithdrawReasons(pub u8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = WithdrawReasons(1);
	pub const TRANSFER: Self = WithdrawReasons(2);
	pub const RESERVE: Self = WithdrawReasons(4);
	pub const FEE: Self = WithdrawReasons(8);
	pub const TIP: Self = WithdrawReasons(16);
	pub fn except(one: Self) -> Self {
		WithdrawReasons(31 & !one.0)
	}
}
impl core::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		WithdrawReasons(self.0 | o.0)
	}
}
