//! The runtime the payments pallet is instantiated with: an account ledger, a scheduler and a fee handler whose
//! behaviour is exactly the contract assumed of the real ones, with symbolic contents.
use frame_support::{
	storage::Table,
	dispatch::{DispatchResultWithPostInfo, PostDispatchInfo, RawOrigin},
	traits::{
		fungibles,
		schedule::{v3, Bounded, DispatchTime, Period, Priority},
		tokens::{Fortitude, Precision, Preservation, Restriction},
		EnsureOrigin, GetDispatchInfo, QueryPreimage, StorePreimage, UnfilteredDispatchable,
	},
	weights::RuntimeDbWeight,
	PalletId,
};
use pallet_payments::{self as pp, FeeHandler, Fees, PaymentDetail, PaymentState};
use parity_scale_codec::{Decode, Encode, Error as CodecError, Input, MaxEncodedLen, Output};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{BlakeTwo256, ConstU32, Dispatchable, Get, IdentityLookup},
	BoundedVec, DispatchError, DispatchResult, Percent, TokenError, H256,
};

pub type Acc = u64;
/// The payer. The pallet is generic in the account type and only compares and orders accounts, so fixing one of
/// them in the middle of the range loses nothing; it keeps storage keys concrete. All others are arbitrary.
pub const PAYER: Acc = 1 << 32;
pub type Bal = u128;
pub const ASSET: u32 = 7;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Pid(pub u32);

#[derive(Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct Rt;

frame_support::model_origin!(pub RuntimeOrigin, OriginCaller, Acc, RuntimeCall, Resolver(ResolverOrigin));
/// Stands for whatever origin the configuration accepts as dispute resolver.
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct ResolverOrigin(pub Acc);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum RuntimeCall {
	Payments(pp::Call<Rt>),
	Other,
}
impl From<pp::Call<Rt>> for RuntimeCall {
	fn from(c: pp::Call<Rt>) -> Self {
		RuntimeCall::Payments(c)
	}
}
impl Encode for RuntimeCall {
	fn encode_to<T: Output + ?Sized>(&self, _: &mut T) {
		nd::model_gap!(false, "call encoding");
	}
}
impl parity_scale_codec::EncodeLike for RuntimeCall {}
impl Decode for RuntimeCall {
	fn decode<I: Input>(_: &mut I) -> Result<Self, CodecError> {
		nd::model_gap!(false, "call decoding");
		Err("unmodelled".into())
	}
}
impl TypeInfo for RuntimeCall {
	type Identity = ();
	fn type_info() -> scale_info::Type {
		<() as TypeInfo>::type_info()
	}
}
impl GetDispatchInfo for RuntimeCall {}
impl Dispatchable for RuntimeCall {
	type RuntimeOrigin = RuntimeOrigin;
	type Config = ();
	type Info = ();
	type PostInfo = PostDispatchInfo;
	fn dispatch(self, o: RuntimeOrigin) -> DispatchResultWithPostInfo {
		match self {
			RuntimeCall::Payments(c) => c.dispatch_bypass_filter(o),
			RuntimeCall::Other => Ok(().into()),
		}
	}
}

#[derive(Clone, PartialEq, Debug)]
pub enum RuntimeEvent {
	System,
	Payments(pp::Event<Rt>),
}
impl From<pp::Event<Rt>> for RuntimeEvent {
	fn from(e: pp::Event<Rt>) -> Self {
		RuntimeEvent::Payments(e)
	}
}
impl TryFrom<RuntimeEvent> for pp::Event<Rt> {
	type Error = ();
	fn try_from(e: RuntimeEvent) -> Result<Self, ()> {
		match e {
			RuntimeEvent::Payments(e) => Ok(e),
			_ => Err(()),
		}
	}
}
impl From<frame_system::Event<Rt>> for RuntimeEvent {
	fn from(_: frame_system::Event<Rt>) -> Self {
		RuntimeEvent::System
	}
}

pub struct Db;
impl Get<RuntimeDbWeight> for Db {
	fn get() -> RuntimeDbWeight {
		RuntimeDbWeight { read: 1, write: 1 }
	}
}

impl frame_system::Config for Rt {
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Nonce = u32;
	type Hash = H256;
	type Hashing = BlakeTwo256;
	type AccountId = Acc;
	type Lookup = IdentityLookup<Acc>;
	type BlockNumber = u32;
	type RuntimeEvent = RuntimeEvent;
	type DbWeight = Db;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum RuntimeHoldReason {
	Payments(pp::HoldReason),
	Foreign,
}
impl From<pp::HoldReason> for RuntimeHoldReason {
	fn from(r: pp::HoldReason) -> Self {
		RuntimeHoldReason::Payments(r)
	}
}

impl pp::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type PalletsOrigin = OriginCaller;
	type RuntimeCall = RuntimeCall;
	type Assets = Ledger;
	type AssetsBalance = Bal;
	type FeeHandler = Handler;
	type SenderOrigin = frame_system::EnsureSigned<Acc>;
	type BeneficiaryOrigin = frame_system::EnsureSigned<Acc>;
	type DisputeResolver = EnsureResolver;
	type PaymentId = Pid;
	type Scheduler = Sched;
	type Preimages = Pre;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
	type PalletId = Id;
	type IncentivePercentage = Incentive;
	type MaxRemarkLength = ConstU32<50>;
	type MaxFees = ConstU32<50>;
	type MaxDiscounts = ConstU32<10>;
	type CancelBufferBlockLength = Delay;
}
pub struct Id;
impl Get<PalletId> for Id {
	fn get() -> PalletId {
		PalletId(*b"payments")
	}
}
pub struct Incentive;
impl Get<Percent> for Incentive {
	fn get() -> Percent {
		Percent::from_percent(w().incentive)
	}
}
pub struct Delay;
impl Get<u32> for Delay {
	fn get() -> u32 {
		w().delay
	}
}
pub struct EnsureResolver;
impl EnsureOrigin<RuntimeOrigin> for EnsureResolver {
	type Success = Acc;
	fn try_origin(o: RuntimeOrigin) -> Result<Acc, RuntimeOrigin> {
		match o.caller {
			OriginCaller::Resolver(ResolverOrigin(a)) => Ok(a),
			_ => Err(o),
		}
	}
}

pub type Fee = (Acc, Bal, bool);
pub struct Scheduled {
	pub name: [u8; 32],
	pub at: DispatchTime<u32>,
	pub periodic: bool,
	pub origin: OriginCaller,
	pub call: RuntimeCall,
}
pub struct World {
	/// The ledger follows one arbitrary account exactly. Operations on other accounts succeed or fail arbitrarily,
	/// so what is shown for the followed account holds for every account.
	pub x: Acc,
	pub free: Bal,
	pub held: Bal,
	/// The ledger may refuse any operation, even a feasible one.
	pub may_refuse: bool,
	/// An operation failed because the followed account lacked the funds.
	pub short: bool,
	pub wrong_asset: bool,
	pub wrong_reason: bool,
	pub moves: u32,
	// configuration
	pub incentive: u8,
	pub delay: u32,
	/// winner of disputes: 0 either, 1 the payer, 2 the beneficiary
	pub winner: u8,
	// fee handler
	pub fees_s: BoundedVec<Fee, ConstU32<50>>,
	pub fees_b: BoundedVec<Fee, ConstU32<50>>,
	pub expect_fee_args: (Acc, Acc, Bal),
	pub fee_calls: u32,
	pub wrong_fee_args: bool,
	// payment ids
	pub next: Option<Pid>,
	pub expect_id_args: (Acc, Acc),
	pub wrong_id_args: bool,
	// scheduler
	pub scheduled: u32,
	pub last: Option<Scheduled>,
	pub cancelled: u32,
	pub cancelled_name: [u8; 32],
}
const fn fresh() -> World {
	World {
		x: 0,
		free: 0,
		held: 0,
		may_refuse: true,
		short: false,
		wrong_asset: false,
		wrong_reason: false,
		moves: 0,
		incentive: 0,
		delay: 0,
		winner: 0,
		fees_s: BoundedVec::new(),
		fees_b: BoundedVec::new(),
		expect_fee_args: (0, 0, 0),
		fee_calls: 0,
		wrong_fee_args: false,
		next: None,
		expect_id_args: (0, 0),
		wrong_id_args: false,
		scheduled: 0,
		last: None,
		cancelled: 0,
		cancelled_name: [0; 32],
	}
}
static mut W: World = fresh();
pub fn w() -> &'static mut World {
	unsafe { &mut *core::ptr::addr_of_mut!(W) }
}
/// Back to the initial state (native runs).
pub fn reset() {
	*w() = fresh();
	unsafe { USED = 0 };
	sp_runtime::per_things::scale::reset();
	#[cfg(not(kani))]
	frame_support::storage::reset_all();
}

static mut PAYMENTS: Table<(Acc, Pid), Detail> = Table::new();
static mut PARTIES: Table<Pid, (Acc, Acc)> = Table::new();
static mut SYSTEM: frame_system::State<RuntimeEvent> = frame_system::State::new();
/// Empty storage.
pub fn start() {
	frame_system::Pallet::<Rt>::install(core::ptr::addr_of_mut!(SYSTEM));
	pp::Payment::<Rt>::install(core::ptr::addr_of_mut!(PAYMENTS));
	pp::PaymentParties::<Rt>::install(core::ptr::addr_of_mut!(PARTIES));
	#[cfg(kani)]
	{
		use sp_std::vec::provide;
		provide(0, core::ptr::addr_of_mut!(MAP1));
		provide(1, core::ptr::addr_of_mut!(MAP2));
		provide(2, core::ptr::addr_of_mut!(VEC1));
		provide(3, core::ptr::addr_of_mut!(VEC2));
	}
}
/// Memory for the maps and lists of fees the pallet builds.
#[cfg(kani)]
type FeeEntry = ((Acc, bool), Fee);
#[cfg(kani)]
static mut MAP1: [FeeEntry; 4] = [((0, false), (0, 0, false)); 4];
#[cfg(kani)]
static mut MAP2: [FeeEntry; 4] = [((0, false), (0, 0, false)); 4];
#[cfg(kani)]
static mut VEC1: [Fee; 4] = [(0, 0, false); 4];
#[cfg(kani)]
static mut VEC2: [Fee; 4] = [(0, 0, false); 4];

fn refused() -> bool {
	w().may_refuse && nd::any::<bool>()
}

pub struct Ledger;
impl Ledger {
	fn asset(asset: u32) {
		if asset != ASSET {
			w().wrong_asset = true;
		}
	}
	fn reason(r: &RuntimeHoldReason) {
		if *r != RuntimeHoldReason::Payments(pp::HoldReason::TransferPayment) {
			w().wrong_reason = true;
		}
	}
	fn take(who: Acc, from: &mut Bal, amount: Bal, p: Precision) -> Result<Bal, DispatchError> {
		w().moves += 1;
		if refused() {
			return Err(LOW);
		}
		if who != w().x {
			return Ok(if p == Precision::Exact { amount } else { at_most(amount) });
		}
		if *from >= amount {
			*from -= amount;
			Ok(amount)
		} else if p == Precision::BestEffort {
			let a = *from;
			*from = 0;
			Ok(a)
		} else {
			w().short = true;
			Err(LOW)
		}
	}
	fn give(who: Acc, to: &mut Bal, amount: Bal) {
		if who == w().x {
			// contract of the ledger: the total issuance fits the balance type, hence every balance does
			nd::assume(to.checked_add(amount).is_some());
			*to = to.wrapping_add(amount);
		}
	}
}
fn at_most(n: Bal) -> Bal {
	let a = nd::any();
	nd::req!(a <= n);
	a
}
const LOW: DispatchError = DispatchError::Token(TokenError::FundsUnavailable);
impl fungibles::Inspect<Acc> for Ledger {
	type AssetId = u32;
	type Balance = Bal;
	fn balance(asset: u32, who: &Acc) -> Bal {
		Self::asset(asset);
		if *who == w().x {
			w().free
		} else {
			nd::any()
		}
	}
	fn total_balance(asset: u32, who: &Acc) -> Bal {
		Self::asset(asset);
		if *who == w().x {
			w().free.wrapping_add(w().held)
		} else {
			nd::any()
		}
	}
	fn reducible_balance(asset: u32, who: &Acc, _: Preservation, _: Fortitude) -> Bal {
		Self::balance(asset, who)
	}
	fn asset_exists(asset: u32) -> bool {
		asset == ASSET
	}
	fn minimum_balance(_: u32) -> Bal {
		1
	}
	fn total_issuance(_: u32) -> Bal {
		nd::any()
	}
}
impl fungibles::Balanced<Acc> for Ledger {}
impl fungibles::Mutate<Acc> for Ledger {
	fn transfer(asset: u32, from: &Acc, to: &Acc, amount: Bal, _: Preservation) -> Result<Bal, DispatchError> {
		Self::asset(asset);
		let a = Self::take(*from, &mut w().free, amount, Precision::Exact)?;
		Self::give(*to, &mut w().free, a);
		Ok(a)
	}
}
impl fungibles::hold::Inspect<Acc> for Ledger {
	type Reason = RuntimeHoldReason;
	fn balance_on_hold(asset: u32, reason: &RuntimeHoldReason, who: &Acc) -> Bal {
		Self::reason(reason);
		Self::asset(asset);
		if *who == w().x {
			w().held
		} else {
			nd::any()
		}
	}
	fn total_balance_on_hold(asset: u32, who: &Acc) -> Bal {
		Self::balance_on_hold(asset, &HOLD, who)
	}
	fn can_hold(asset: u32, reason: &RuntimeHoldReason, who: &Acc, amount: Bal) -> bool {
		Self::reason(reason);
		<Self as fungibles::Inspect<Acc>>::balance(asset, who) >= amount
	}
}
pub const HOLD: RuntimeHoldReason = RuntimeHoldReason::Payments(pp::HoldReason::TransferPayment);
impl fungibles::hold::Mutate<Acc> for Ledger {
	fn hold(asset: u32, reason: &RuntimeHoldReason, who: &Acc, amount: Bal) -> DispatchResult {
		Self::reason(reason);
		Self::asset(asset);
		let a = Self::take(*who, &mut w().free, amount, Precision::Exact)?;
		Self::give(*who, &mut w().held, a);
		Ok(())
	}
	fn release(asset: u32, reason: &RuntimeHoldReason, who: &Acc, amount: Bal, p: Precision) -> Result<Bal, DispatchError> {
		Self::reason(reason);
		Self::asset(asset);
		let a = Self::take(*who, &mut w().held, amount, p)?;
		Self::give(*who, &mut w().free, a);
		Ok(a)
	}
	fn transfer_on_hold(
		asset: u32,
		reason: &RuntimeHoldReason,
		from: &Acc,
		to: &Acc,
		amount: Bal,
		p: Precision,
		mode: Restriction,
		_: Fortitude,
	) -> Result<Bal, DispatchError> {
		Self::reason(reason);
		Self::asset(asset);
		let a = Self::take(*from, &mut w().held, amount, p)?;
		match mode {
			Restriction::Free => Self::give(*to, &mut w().free, a),
			Restriction::OnHold => Self::give(*to, &mut w().held, a),
		}
		Ok(a)
	}
	fn transfer_and_hold(
		asset: u32,
		reason: &RuntimeHoldReason,
		from: &Acc,
		to: &Acc,
		amount: Bal,
		p: Precision,
		_: Preservation,
		_: Fortitude,
	) -> Result<Bal, DispatchError> {
		Self::reason(reason);
		Self::asset(asset);
		let a = Self::take(*from, &mut w().free, amount, p)?;
		Self::give(*to, &mut w().held, a);
		Ok(a)
	}
}

pub struct Handler;
impl FeeHandler<Rt> for Handler {
	fn apply_fees(asset: &u32, sender: &Acc, beneficiary: &Acc, amount: &Bal, _remark: Option<&[u8]>) -> Fees<Rt> {
		let w = w();
		w.fee_calls += 1;
		if *asset != ASSET || (*sender, *beneficiary, *amount) != w.expect_fee_args {
			w.wrong_fee_args = true;
		}
		Fees { sender_pays: w.fees_s.clone(), beneficiary_pays: w.fees_b.clone() }
	}
}
impl pp::PaymentId<Rt> for Pid {
	fn next(sender: &Acc, beneficiary: &Acc) -> Option<Pid> {
		let w = w();
		if (*sender, *beneficiary) != w.expect_id_args {
			w.wrong_id_args = true;
		}
		w.next
	}
}
pub struct Pre;
impl QueryPreimage for Pre {
	type H = BlakeTwo256;
}
impl StorePreimage for Pre {
	fn bound<T>(t: T) -> Result<Bounded<T, BlakeTwo256>, DispatchError> {
		if refused() {
			return Err(DispatchError::Unavailable);
		}
		Ok(Bounded::Model(t, core::marker::PhantomData))
	}
}
pub struct Sched;
impl v3::Named<u32, RuntimeCall, OriginCaller> for Sched {
	type Address = ();
	type Hasher = BlakeTwo256;
	fn schedule_named(
		name: [u8; 32],
		at: DispatchTime<u32>,
		periodic: Option<Period<u32>>,
		_: Priority,
		origin: OriginCaller,
		call: Bounded<RuntimeCall, BlakeTwo256>,
	) -> Result<(), DispatchError> {
		if refused() {
			return Err(DispatchError::Unavailable);
		}
		let Bounded::Model(call, _) = call;
		w().scheduled += 1;
		w().last = Some(Scheduled { name, at, periodic: periodic.is_some(), origin, call });
		Ok(())
	}
	fn cancel_named(name: [u8; 32]) -> Result<(), DispatchError> {
		if refused() {
			return Err(DispatchError::Unavailable);
		}
		w().cancelled += 1;
		w().cancelled_name = name;
		Ok(())
	}
}

// --- symbolic inputs -------------------------------------------------------------------------
pub fn acc() -> Acc {
	nd::id64(PAYER)
}
pub fn signed(a: Acc) -> RuntimeOrigin {
	RawOrigin::Signed(a).into()
}
pub fn resolver(a: Acc) -> RuntimeOrigin {
	RuntimeOrigin { caller: OriginCaller::Resolver(ResolverOrigin(a)) }
}
/// Any origin at all.
pub fn origin() -> RuntimeOrigin {
	match nd::below(4) {
		0 => RawOrigin::Root.into(),
		1 => RawOrigin::None.into(),
		2 => resolver(acc()),
		_ => signed(acc()),
	}
}
/// A list of exactly `n <= 1` fees with any receiver, amount and dispute flag; from 20 on, lists of two fees with any
/// amounts and a given pattern of receivers and flags (concrete, so that the length of merged lists is too).
pub fn fees(n: usize) -> BoundedVec<Fee, ConstU32<50>> {
	let two = |f: Acc, cf: bool, g: Acc, cg: bool| [(PAYER + f, nd::any::<Bal>(), cf), (PAYER + g, nd::any::<Bal>(), cg)];
	let v = match n {
		0 => return BoundedVec::new(),
		1 => [(acc(), nd::any::<Bal>(), nd::any::<bool>()), (0, 0, false)],
		20 => two(10, true, 10, false),
		21 => two(10, false, 10, true),
		22 => two(10, true, 10, true),
		23 => two(10, true, 11, false),
		24 => two(11, false, 10, true),
		_ => two(0, true, 10, true),
	};
	// typed static memory, so that the verifier keeps the constants
	let at: &'static mut [Fee; 2] = unsafe {
		USED += 1;
		match USED {
			1 => &mut *core::ptr::addr_of_mut!(LIST1),
			_ => &mut *core::ptr::addr_of_mut!(LIST2),
		}
	};
	*at = v;
	BoundedVec::from_static(if n == 1 { &at[..1] } else { &at[..] })
}
static mut USED: u8 = 0;
static mut LIST1: [Fee; 2] = [(0, 0, false); 2];
static mut LIST2: [Fee; 2] = [(0, 0, false); 2];
/// Sum of a fee list, `None` on overflow.
pub fn total(f: &[Fee]) -> Option<Bal> {
	let mut t: Bal = 0;
	let mut i = 0;
	while i < f.len() {
		t = t.checked_add(f[i].1)?;
		i += 1;
	}
	Some(t)
}
/// `floor(p / 100 * x)`
pub fn percent(p: u8, x: Bal) -> Bal {
	sp_runtime::per_things::scale::of(p as Bal, x, 100).floor
}
/// The `k`-th state (its discriminant stays concrete for the verifier), with any content.
pub fn state(k: u8) -> PaymentState<u32> {
	match k {
		0 => PaymentState::Created,
		1 => PaymentState::NeedsReview,
		2 => PaymentState::RefundRequested { cancel_block: nd::any() },
		3 => PaymentState::PaymentRequested,
		_ => PaymentState::Finished,
	}
}
/// Any balances of any account.
pub fn balances() {
	let w = w();
	w.x = acc();
	w.free = nd::any();
	w.held = nd::any();
}
pub type Detail = PaymentDetail<Rt>;
/// What the followed account owns and has on hold.
#[derive(Clone, Copy)]
pub struct Books {
	pub free: Bal,
	pub held: Bal,
}
pub fn books() -> Books {
	Books { free: w().free, held: w().held }
}
impl Books {
	pub fn pay(&mut self, from: Acc, to: Acc, v: Bal) {
		self.free(from, 0u128.wrapping_sub(v));
		self.free(to, v);
	}
	pub fn free(&mut self, who: Acc, v: Bal) {
		if who == w().x {
			self.free = self.free.wrapping_add(v);
		}
	}
	pub fn held(&mut self, who: Acc, v: Bal) {
		if who == w().x {
			self.held = self.held.wrapping_add(v);
		}
	}
	pub fn hold(&mut self, who: Acc, v: Bal) {
		self.free(who, 0u128.wrapping_sub(v));
		self.held(who, v);
	}
	pub fn unhold(&mut self, who: Acc, v: Bal) {
		self.hold(who, 0u128.wrapping_sub(v));
	}
}
pub fn dup<T>(t: &T) -> T {
	frame_support::storage::dup(t)
}
pub fn plus(a: Option<Bal>, b: Bal) -> Option<Bal> {
	match a {
		Some(a) => a.checked_add(b),
		None => None,
	}
}
