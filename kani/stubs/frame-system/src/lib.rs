//! frame-system as used by the code under proof: origins, block number, events, provider references.
#![allow(static_mut_refs)]
use core::marker::PhantomData;
use frame_support::{
	storage::Slot,
	traits::{EnsureOrigin, Get, OriginTrait},
	weights::RuntimeDbWeight,
	Parameter,
};
use parity_scale_codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{AtLeast32BitUnsigned, BadOrigin, Dispatchable, Member, StaticLookup, TypedGet, UniqueSaturatedFrom, UniqueSaturatedInto},
	DispatchError,
};

pub use frame_support::dispatch::RawOrigin;
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

pub trait Config: 'static + Eq + Clone {
	type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
		+ From<RawOrigin<Self::AccountId>>
		+ Clone
		+ core::fmt::Debug
		+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
	type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin>;
	type Nonce: AtLeast32BitUnsigned + Default;
	type Hash: Parameter + Member + Copy + Default + MaxEncodedLen + Ord + AsRef<[u8]>;
	type Hashing: sp_runtime::traits::Hash<Output = Self::Hash> + TypeInfo;
	type AccountId: Parameter + Member + Ord + MaxEncodedLen;
	type Lookup: StaticLookup<Target = Self::AccountId>;
	type BlockNumber: Parameter + Member + AtLeast32BitUnsigned + FullCodec + Copy + Default + MaxEncodedLen;
	type RuntimeEvent: Parameter2 + From<Event<Self>>;
	type DbWeight: Get<RuntimeDbWeight>;
}
pub trait Parameter2: Clone + PartialEq + core::fmt::Debug + 'static {}
impl<T: Clone + PartialEq + core::fmt::Debug + 'static> Parameter2 for T {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Event<T: Config> {
	Remarked { sender: T::AccountId },
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub enum Call<T: Config> {
	remark { remark: Vec<u8> },
	set_heap_pages {},
	set_code {},
	set_code_without_checks {},
	set_storage {},
	kill_storage {},
	kill_prefix {},
	remark_with_event {},
	do_task {},
	authorize_upgrade {},
	authorize_upgrade_without_checks {},
	apply_authorized_upgrade {},
	#[codec(skip)]
	__Ignore(PhantomData<T>),
}
pub use Call as SystemCall;

pub struct Pallet<T>(PhantomData<T>);

/// Model state of frame-system.
pub struct State<E> {
	pub block: u128,
	pub events: u32,
	pub last: Option<E>,
	pub before_last: Option<E>,
	pub providers_inc: u32,
	pub providers_dec: u32,
	pub provider_of: [u8; 32],
	pub nonces: u32,
	pub account_nonce: u128,
	pub block_hashes: [(u128, [u8; 32]); 2],
	pub extrinsic_index: Option<u32>,
}
impl<E> State<E> {
	pub const fn new() -> Self {
		State {
			block: 0,
			events: 0,
			last: None,
			before_last: None,
			providers_inc: 0,
			providers_dec: 0,
			provider_of: [0; 32],
			nonces: 0,
			account_nonce: 0,
			block_hashes: [(u128::MAX, [0; 32]); 2],
			extrinsic_index: None,
		}
	}
}
impl<E> Default for State<E> {
	fn default() -> Self {
		Self::new()
	}
}
static mut SYSTEM: Slot = Slot::new();
pub enum IncRefStatus {
	Created,
	Existed,
}
pub enum DecRefStatus {
	Reaped,
	Exists,
}

impl<T: Config> Pallet<T> {
	pub fn state() -> &'static mut State<T::RuntimeEvent> {
		Slot::cell::<State<T::RuntimeEvent>>(core::ptr::addr_of_mut!(SYSTEM))
	}
	/// Uses memory provided by the harness.
	pub fn install(at: *mut State<T::RuntimeEvent>) {
		unsafe { *at = State::new() };
		Slot::install(core::ptr::addr_of_mut!(SYSTEM), at)
	}
	pub fn block_number() -> T::BlockNumber {
		T::BlockNumber::unique_saturated_from(Self::state().block)
	}
	pub fn set_block_number(n: T::BlockNumber) {
		Self::state().block = n.unique_saturated_into();
	}
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		let s = Self::state();
		s.events += 1;
		s.before_last = s.last.take();
		s.last = Some(event.into());
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		let s = Self::state();
		s.providers_inc += 1;
		who.using_encoded(|b| {
			nd::model_gap!(b.len() <= 32, "account id longer than the model covers");
			s.provider_of[..b.len()].copy_from_slice(b)
		});
		IncRefStatus::Created
	}
	pub fn dec_providers(_who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Self::state().providers_dec += 1;
		Ok(DecRefStatus::Exists)
	}
	pub fn inc_account_nonce(_who: impl frame_support::storage::IntoStored<T::AccountId>) {
		Self::state().nonces += 1;
	}
	pub fn account_nonce(_who: impl frame_support::storage::IntoStored<T::AccountId>) -> T::Nonce {
		T::Nonce::unique_saturated_from(Self::state().account_nonce)
	}
	/// Hash of a known earlier block; zero for any other, as FRAME's default.
	pub fn block_hash(n: impl frame_support::storage::IntoStored<T::BlockNumber>) -> T::Hash
	where
		T::Hash: From<[u8; 32]>,
	{
		let n: u128 = n.into_stored().unique_saturated_into();
		let s = Self::state();
		if n == s.block_hashes[0].0 {
			return s.block_hashes[0].1.into();
		}
		if n == s.block_hashes[1].0 {
			return s.block_hashes[1].1.into();
		}
		[0; 32].into()
	}
	/// Index of the extrinsic being executed, if any.
	pub fn extrinsic_index() -> Option<u32> {
		Self::state().extrinsic_index
	}
	pub fn providers(_who: &T::AccountId) -> u32 {
		nd::model_gap!(false, "providers");
		0
	}
}

pub fn ensure_signed<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<AccountId, BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<Option<AccountId>, BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<(), BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<OuterOrigin, AccountId>(o: OuterOrigin) -> Result<(), BadOrigin>
where
	OuterOrigin: Into<Result<RawOrigin<AccountId>, OuterOrigin>>,
{
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}

pub struct EnsureSigned<AccountId>(PhantomData<AccountId>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(who) => Ok(who),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureRoot<AccountId>(PhantomData<AccountId>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureRootWithSuccess<AccountId, Success>(PhantomData<(AccountId, Success)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, S: TypedGet> EnsureOrigin<O> for EnsureRootWithSuccess<A, S> {
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(S::get()),
			r => Err(O::from(r)),
		})
	}
}
/// The same whatever the argument, as frame-system has it.
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, S: TypedGet, Arg> frame_support::traits::EnsureOriginWithArg<O, Arg>
	for EnsureRootWithSuccess<A, S>
{
	type Success = S::Type;
	fn try_origin(o: O, _: &Arg) -> Result<S::Type, O> {
		<Self as EnsureOrigin<O>>::try_origin(o)
	}
}
pub struct EnsureSignedBy<Who, AccountId>(PhantomData<(Who, AccountId)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A: Ord, Who: frame_support::traits::SortedMembers<A>> EnsureOrigin<O>
	for EnsureSignedBy<Who, A>
{
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(who) if Who::contains(&who) => Ok(who),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<Success>(PhantomData<Success>);
impl<O, Success> EnsureOrigin<O> for EnsureNever<Success> {
	type Success = Success;
	fn try_origin(o: O) -> Result<Success, O> {
		Err(o)
	}
}
pub struct EnsureNone<AccountId>(PhantomData<AccountId>);

pub mod pallet_prelude {
	pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
	pub type BlockNumberFor<T> = <T as super::Config>::BlockNumber;
	pub type RuntimeCallFor<T> = <T as super::Config>::RuntimeCall;
}
pub mod offchain {}
macro_rules! extensions { ($($n:ident)*) => { $(pub struct $n<T>(PhantomData<T>);)* } }
extensions!(CheckNonZeroSender CheckSpecVersion CheckTxVersion CheckGenesis CheckEra CheckNonce CheckWeight ChainContext);
/// Block limits: only the values are kept.
pub mod limits {
	use frame_support::{dispatch::DispatchClass, weights::Weight};
	use sp_runtime::Perbill;
	pub struct BlockLength(pub u32);
	impl BlockLength {
		pub fn max_with_normal_ratio(max: u32, _normal: Perbill) -> Self {
			BlockLength(max)
		}
	}
	#[derive(Clone, Copy, Default)]
	pub struct WeightsPerClass {
		pub base_extrinsic: Weight,
		pub max_extrinsic: Option<Weight>,
		pub max_total: Option<Weight>,
		pub reserved: Option<Weight>,
	}
	#[derive(Clone, Copy, Default)]
	pub struct BlockWeights {
		pub base_block: Weight,
		pub max_block: Weight,
		pub normal: WeightsPerClass,
		pub operational: WeightsPerClass,
		pub mandatory: WeightsPerClass,
	}
	impl BlockWeights {
		pub fn builder() -> BlockWeightsBuilder {
			BlockWeightsBuilder(Default::default())
		}
		pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
			match c {
				DispatchClass::Normal => &self.normal,
				DispatchClass::Operational => &self.operational,
				DispatchClass::Mandatory => &self.mandatory,
			}
		}
	}
	pub trait OneOrMore {
		fn has(&self, c: DispatchClass) -> bool;
	}
	impl OneOrMore for DispatchClass {
		fn has(&self, c: DispatchClass) -> bool {
			*self == c
		}
	}
	impl OneOrMore for &[DispatchClass] {
		fn has(&self, c: DispatchClass) -> bool {
			self.contains(&c)
		}
	}
	pub struct BlockWeightsBuilder(BlockWeights);
	impl BlockWeightsBuilder {
		pub fn base_block(mut self, w: Weight) -> Self {
			self.0.base_block = w;
			self
		}
		pub fn for_class(mut self, c: impl OneOrMore, f: impl Fn(&mut WeightsPerClass)) -> Self {
			if c.has(DispatchClass::Normal) {
				f(&mut self.0.normal)
			}
			if c.has(DispatchClass::Operational) {
				f(&mut self.0.operational)
			}
			if c.has(DispatchClass::Mandatory) {
				f(&mut self.0.mandatory)
			}
			self
		}
		pub fn avg_block_initialization(self, _: Perbill) -> Self {
			self
		}
		pub fn build_or_panic(mut self) -> BlockWeights {
			if let Some(m) = self.0.operational.max_total {
				self.0.max_block = m;
			}
			self.0
		}
	}
}
