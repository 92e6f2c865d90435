//! The runtime the communities pallets are instantiated with: memberships, polls, token ledgers and the components
//! used by full registration, behaving exactly as the contracts assumed of the real ones, with symbolic contents.
use core::num::NonZeroU8;
use fc_traits_memberships::{self as mb, GenericRank};
use frame_support::{
	dispatch::{DispatchResultWithPostInfo, PostDispatchInfo, RawOrigin},
	storage::Table,
	traits::{
		fungible, fungibles, nonfungibles_v2 as nft,
		tokens::{Fortitude, Preservation},
		EnsureOrigin, GetDispatchInfo, IsSubType, PollStatus, Polling, RankedMembers,
	},
	weights::RuntimeDbWeight,
	PalletId,
};
use pallet_communities::{self as pc, CommunityInfo, CommunityState, DecisionMethod, Tally, Vote};
use pallet_communities_manager as pm;
use pallet_nfts::CollectionConfig;
use pallet_referenda::TrackInfo;
use parity_scale_codec::{Decode, Encode, Error as CodecError, Input, MaxEncodedLen, Output};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{BlakeTwo256, Dispatchable, Get, IdentityLookup},
	DispatchError, DispatchResult, TokenError, H256,
};

/// 128-bit account ids, wide enough for every community's account to be distinct.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Acc(pub u64, pub u64);
pub type Bal = u64;
/// Community ids: any 32-bit number.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Cid(pub u32);
impl From<u32> for Cid {
	fn from(n: u32) -> Self {
		Cid(n)
	}
}
impl From<u64> for Cid {
	fn from(n: u64) -> Self {
		nd::model_gap!(n <= u32::MAX as u64, "community id from a 64-bit number");
		Cid(n as u32)
	}
}
impl From<Cid> for u32 {
	fn from(c: Cid) -> u32 {
		c.0
	}
}
/// The account that acts, the poll and the membership it acts with: the pallet only compares them, so fixing them
/// loses nothing and keeps storage keys concrete.
pub const WHO: Acc = Acc(1 << 32, 0);
pub const OLD: Acc = Acc(7 << 40, 0);
pub const POLL: u32 = 9;
pub const MEM: u32 = 3;

#[derive(Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct Rt;

frame_support::model_origin!(pub RuntimeOrigin, OriginCaller, Acc, RuntimeCall, Communities(pc::Origin<Rt>), Other(OtherOrigin));
/// Stands for every origin of other pallets; the configuration lets 1 create, 2 register and 3 mint memberships.
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct OtherOrigin(pub u32);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum RuntimeCall {
	Communities,
	Probe(u32),
	System,
}
impl From<pc::Call<Rt>> for RuntimeCall {
	fn from(c: pc::Call<Rt>) -> Self {
		core::mem::forget(c);
		RuntimeCall::Communities
	}
}
impl From<frame_system::Call<Rt>> for RuntimeCall {
	fn from(_: frame_system::Call<Rt>) -> Self {
		RuntimeCall::System
	}
}
impl IsSubType<pc::Call<Rt>> for RuntimeCall {
	fn is_sub_type(&self) -> Option<&pc::Call<Rt>> {
		nd::model_gap!(false, "is_sub_type");
		None
	}
}
impl Encode for RuntimeCall {
	fn encode_to<T: Output + ?Sized>(&self, _: &mut T) {
		nd::model_gap!(false, "call encoding");
	}
}
impl parity_scale_codec::EncodeLike for RuntimeCall {}
impl Decode for RuntimeCall {
	fn decode<I: Input>(_: &mut I) -> Result<Self, CodecError> {
		nd::model_gap!(false, "call decoding");
		Err("unmodelled".into())
	}
}
impl TypeInfo for RuntimeCall {
	type Identity = ();
	fn type_info() -> scale_info::Type {
		<() as TypeInfo>::type_info()
	}
}
impl GetDispatchInfo for RuntimeCall {}
impl Dispatchable for RuntimeCall {
	type RuntimeOrigin = RuntimeOrigin;
	type Config = ();
	type Info = ();
	type PostInfo = PostDispatchInfo;
	/// Records which call was dispatched by whom; succeeds or fails arbitrarily.
	fn dispatch(self, o: RuntimeOrigin) -> DispatchResultWithPostInfo {
		let w = w();
		w.dispatched += 1;
		if let RuntimeCall::Probe(n) = self {
			w.dispatched_call = n;
		}
		if let OriginCaller::system(RawOrigin::Signed(a)) = o.caller {
			w.signer = Some(a);
		}
		if refused() {
			return Err(LOW.into());
		}
		Ok(().into())
	}
}

#[derive(Clone, PartialEq, Debug)]
pub enum RuntimeEvent {
	System,
	Communities(pc::Event<Rt>),
	Manager(pm::Event<Rt>),
}
impl From<pc::Event<Rt>> for RuntimeEvent {
	fn from(e: pc::Event<Rt>) -> Self {
		RuntimeEvent::Communities(e)
	}
}
impl TryFrom<RuntimeEvent> for pc::Event<Rt> {
	type Error = ();
	fn try_from(e: RuntimeEvent) -> Result<Self, ()> {
		match e {
			RuntimeEvent::Communities(e) => Ok(e),
			_ => Err(()),
		}
	}
}
impl From<pm::Event<Rt>> for RuntimeEvent {
	fn from(e: pm::Event<Rt>) -> Self {
		RuntimeEvent::Manager(e)
	}
}
impl TryFrom<RuntimeEvent> for pm::Event<Rt> {
	type Error = ();
	fn try_from(e: RuntimeEvent) -> Result<Self, ()> {
		match e {
			RuntimeEvent::Manager(e) => Ok(e),
			_ => Err(()),
		}
	}
}
impl From<frame_system::Event<Rt>> for RuntimeEvent {
	fn from(_: frame_system::Event<Rt>) -> Self {
		RuntimeEvent::System
	}
}

pub struct Db;
impl Get<RuntimeDbWeight> for Db {
	fn get() -> RuntimeDbWeight {
		RuntimeDbWeight { read: 1, write: 1 }
	}
}
impl frame_system::Config for Rt {
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Nonce = u32;
	type Hash = H256;
	type Hashing = BlakeTwo256;
	type AccountId = Acc;
	type Lookup = IdentityLookup<Acc>;
	type BlockNumber = u32;
	type RuntimeEvent = RuntimeEvent;
	type DbWeight = Db;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum RuntimeFreezeReason {
	Communities(pc::FreezeReason),
	Foreign,
}
impl From<pc::FreezeReason> for RuntimeFreezeReason {
	fn from(r: pc::FreezeReason) -> Self {
		RuntimeFreezeReason::Communities(r)
	}
}

impl pc::Config for Rt {
	type CommunityId = Cid;
	type MembershipId = u32;
	type ItemConfig = ();
	type MemberMgmt = Members;
	type CreateOrigin = Paid<1>;
	type AdminOrigin = pc::origin::EnsureCommunity<Rt>;
	type MemberMgmtOrigin = pc::origin::EnsureCommunity<Rt>;
	type Polls = Polls;
	type Assets = Assets;
	type AssetsFreezer = Assets;
	type Balances = Native;
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type PalletId = Id;
}
pub struct Id;
impl Get<PalletId> for Id {
	fn get() -> PalletId {
		PalletId(*b"communit")
	}
}
/// The account of a community, spelled out.
pub fn account_of(c: Cid) -> Acc {
	let i = c.0.to_le_bytes();
	Acc(
		u64::from_le_bytes([b'm', b'o', b'd', b'l', b'c', b'o', b'm', b'm']),
		u64::from_le_bytes([b'u', b'n', b'i', b't', i[0], i[1], i[2], i[3]]),
	)
}
pub struct Paid<const N: u32>;
impl<const N: u32> EnsureOrigin<RuntimeOrigin> for Paid<N> {
	type Success = Option<(Bal, Acc, Acc)>;
	fn try_origin(o: RuntimeOrigin) -> Result<Self::Success, RuntimeOrigin> {
		match o.caller {
			OriginCaller::Other(OtherOrigin(n)) if n == N => Ok(w().deposit),
			_ => Err(o),
		}
	}
}
pub struct Minter;
impl EnsureOrigin<RuntimeOrigin> for Minter {
	type Success = ();
	fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> {
		match o.caller {
			OriginCaller::Other(OtherOrigin(3)) => Ok(()),
			_ => Err(o),
		}
	}
}

pub struct World {
	/// Ledgers follow one arbitrary account `x`, in the native token and in one arbitrary asset `xa`. Operations on
	/// other accounts and assets succeed or fail arbitrarily.
	pub x: Acc,
	pub xa: u32,
	pub free: Bal,
	pub frozen: Bal,
	pub frozen_a: Bal,
	pub freezable: Bal,
	pub freezable_a: Bal,
	pub issuance: Bal,
	pub issuance_a: Bal,
	pub may_refuse: bool,
	/// Some component refused.
	pub refused: bool,
	pub wrong_reason: bool,
	pub transfers: u32,
	pub deposit: Option<(Bal, Acc, Acc)>,
	pub created_assets: u32,
	// the membership followed
	pub holder: Acc,
	pub group: Cid,
	pub rank: Option<GenericRank>,
	pub pool: Option<(Cid, u32)>,
	pub pool_of: Acc,
	pub pool_filter: Option<Cid>,
	pub pool_asked: u32,
	/// last question whether somebody is a member, and the answer
	pub asked: Option<(Cid, Acc)>,
	pub answer: bool,
	pub assigned: u32,
	pub assign: (Cid, u32, Acc),
	pub released: u32,
	pub release: (Cid, u32),
	pub ranked: u32,
	pub rank_set: (Cid, u32, u8),
	pub members: u32,
	pub ranks: u32,
	pub total_of: Cid,
	// the poll followed: 0 unknown, 1 ongoing, 2 completed
	pub status: u8,
	pub class: Cid,
	pub other_poll: bool,
	// calls dispatched
	pub dispatched: u32,
	pub dispatched_call: u32,
	pub signer: Option<Acc>,
	// full registration
	pub collections: u32,
	pub collection: (Cid, Acc, Acc),
	pub tracks: u32,
	pub track: Cid,
	pub track_origin: Option<OriginCaller>,
	pub track_info: Option<TrackInfo<Bal, u32>>,
	pub inducted: u32,
	pub induct: Acc,
	// membership creation
	pub first: u32,
	pub minted: u32,
	pub priced: u32,
	pub price: Bal,
	pub wrong_mint: bool,
}
const fn fresh() -> World {
	World {
		x: Acc(0, 0),
		xa: 0,
		free: 0,
		frozen: 0,
		frozen_a: 0,
		freezable: 0,
		freezable_a: 0,
		issuance: 0,
		issuance_a: 0,
		may_refuse: true,
		refused: false,
		wrong_reason: false,
		transfers: 0,
		deposit: None,
		created_assets: 0,
		holder: Acc(0, 0),
		group: Cid(0),
		rank: None,
		pool: None,
		pool_of: Acc(0, 0),
		pool_filter: None,
		pool_asked: 0,
		asked: None,
		answer: false,
		assigned: 0,
		assign: (Cid(0), 0, Acc(0, 0)),
		released: 0,
		release: (Cid(0), 0),
		ranked: 0,
		rank_set: (Cid(0), 0, 0),
		members: 0,
		ranks: 0,
		total_of: Cid(0),
		status: 0,
		class: Cid(0),
		other_poll: false,
		dispatched: 0,
		dispatched_call: 0,
		signer: None,
		collections: 0,
		collection: (Cid(0), Acc(0, 0), Acc(0, 0)),
		tracks: 0,
		track: Cid(0),
		track_origin: None,
		track_info: None,
		inducted: 0,
		induct: Acc(0, 0),
		first: 0,
		minted: 0,
		priced: 0,
		price: 0,
		wrong_mint: false,
	}
}
static mut W: World = fresh();
pub fn w() -> &'static mut World {
	unsafe { &mut *core::ptr::addr_of_mut!(W) }
}
pub fn reset() {
	*w() = fresh();
	sp_runtime::per_things::scale::reset();
	sp_runtime::per_things::ratio::reset();
	#[cfg(not(kani))]
	frame_support::storage::reset_all();
}

pub type VoteT = Vote<u32, Bal, Bal>;
pub type Method = DecisionMethod<u32, Bal>;
static mut INFO: Table<Cid, CommunityInfo> = Table::new();
static mut ADMINS: Table<OriginCaller, Cid> = Table::new();
static mut METHODS: Table<Cid, Method> = Table::new();
static mut VOTES: Table<(u32, u32), (VoteT, Acc)> = Table::new();
static mut LOCKS: Table<(Acc, u32), VoteT> = Table::new();
static mut SYSTEM: frame_system::State<RuntimeEvent> = frame_system::State::new();
static mut TALLY: Option<Tally<Rt>> = None;
/// Empty storage.
pub fn start() {
	frame_system::Pallet::<Rt>::install(core::ptr::addr_of_mut!(SYSTEM));
	pc::Info::<Rt>::install(core::ptr::addr_of_mut!(INFO));
	pc::CommunityIdFor::<Rt>::install(core::ptr::addr_of_mut!(ADMINS));
	pc::CommunityDecisionMethod::<Rt>::install(core::ptr::addr_of_mut!(METHODS));
	pc::CommunityVotes::<Rt>::install(core::ptr::addr_of_mut!(VOTES));
	pc::CommunityVoteLocks::<Rt>::install(core::ptr::addr_of_mut!(LOCKS));
}

fn refused() -> bool {
	let r = w().may_refuse && nd::any::<bool>();
	if r {
		w().refused = true;
	}
	r
}
const LOW: DispatchError = DispatchError::Token(TokenError::FundsUnavailable);

// --- tokens ------------------------------------------------------------------------------------
fn reason(r: &RuntimeFreezeReason) {
	if *r != RuntimeFreezeReason::Communities(pc::FreezeReason::VoteCasted) {
		w().wrong_reason = true;
	}
}
fn fails() -> DispatchResult {
	w().refused = true;
	Err(LOW)
}
pub struct Native;
impl fungible::Inspect<Acc> for Native {
	type Balance = Bal;
	fn total_issuance() -> Bal {
		w().issuance
	}
	fn balance(who: &Acc) -> Bal {
		if *who == w().x {
			w().free
		} else {
			nd::any()
		}
	}
}
impl fungible::Mutate<Acc> for Native {
	fn transfer(from: &Acc, to: &Acc, amount: Bal, _: Preservation) -> Result<Bal, DispatchError> {
		let w = w();
		w.transfers += 1;
		if refused() {
			return Err(LOW);
		}
		if *from == w.x {
			if w.free < amount {
				w.refused = true;
				return Err(LOW);
			}
			w.free -= amount;
		}
		if *to == w.x {
			nd::assume(w.free.checked_add(amount).is_some());
			w.free = w.free.wrapping_add(amount);
		}
		Ok(amount)
	}
}
impl fungible::freeze::Inspect<Acc> for Native {
	type Id = RuntimeFreezeReason;
	fn balance_frozen(r: &RuntimeFreezeReason, who: &Acc) -> Bal {
		reason(r);
		if *who == w().x {
			w().frozen
		} else {
			nd::any()
		}
	}
	fn balance_freezable(who: &Acc) -> Bal {
		if *who == w().x {
			w().freezable
		} else {
			nd::any()
		}
	}
	fn can_freeze(_: &RuntimeFreezeReason, _: &Acc) -> bool {
		nd::any()
	}
}
impl fungible::freeze::Mutate<Acc> for Native {
	fn set_freeze(r: &RuntimeFreezeReason, who: &Acc, amount: Bal) -> DispatchResult {
		reason(r);
		if refused() {
			return Err(LOW);
		}
		if *who == w().x {
			w().frozen = amount;
		}
		Ok(())
	}
	fn extend_freeze(r: &RuntimeFreezeReason, who: &Acc, amount: Bal) -> DispatchResult {
		reason(r);
		if refused() {
			return Err(LOW);
		}
		if *who == w().x && w().frozen < amount {
			w().frozen = amount;
		}
		Ok(())
	}
	fn thaw(r: &RuntimeFreezeReason, who: &Acc) -> DispatchResult {
		Self::set_freeze(r, who, 0)
	}
	fn set_frozen(r: &RuntimeFreezeReason, who: &Acc, amount: Bal, f: Fortitude) -> DispatchResult {
		if f != Fortitude::Force && <Self as fungible::freeze::Inspect<Acc>>::balance_freezable(who) < amount {
			return fails();
		}
		Self::set_freeze(r, who, amount)
	}
}
pub struct Assets;
impl Assets {
	fn followed(asset: u32, who: &Acc) -> bool {
		asset == w().xa && *who == w().x
	}
}
impl fungibles::Inspect<Acc> for Assets {
	type AssetId = u32;
	type Balance = Bal;
	fn total_issuance(asset: u32) -> Bal {
		if asset == w().xa {
			w().issuance_a
		} else {
			nd::any()
		}
	}
	fn asset_exists(_: u32) -> bool {
		nd::any()
	}
}
impl fungibles::Mutate<Acc> for Assets {}
impl fungibles::Create<Acc> for Assets {
	fn create(_: u32, _: Acc, _: bool, _: Bal) -> DispatchResult {
		w().created_assets += 1;
		if w().may_refuse && nd::any() {
			return Err(LOW);
		}
		Ok(())
	}
}
impl fungibles::freeze::Inspect<Acc> for Assets {
	type Id = RuntimeFreezeReason;
	fn balance_frozen(asset: u32, r: &RuntimeFreezeReason, who: &Acc) -> Bal {
		reason(r);
		if Self::followed(asset, who) {
			w().frozen_a
		} else {
			nd::any()
		}
	}
	fn balance_freezable(asset: u32, who: &Acc) -> Bal {
		if Self::followed(asset, who) {
			w().freezable_a
		} else {
			nd::any()
		}
	}
	fn can_freeze(_: u32, _: &RuntimeFreezeReason, _: &Acc) -> bool {
		nd::any()
	}
}
impl fungibles::freeze::Mutate<Acc> for Assets {
	fn set_freeze(asset: u32, r: &RuntimeFreezeReason, who: &Acc, amount: Bal) -> DispatchResult {
		reason(r);
		if refused() {
			return Err(LOW);
		}
		if Self::followed(asset, who) {
			w().frozen_a = amount;
		}
		Ok(())
	}
	fn extend_freeze(asset: u32, r: &RuntimeFreezeReason, who: &Acc, amount: Bal) -> DispatchResult {
		reason(r);
		if refused() {
			return Err(LOW);
		}
		if Self::followed(asset, who) && w().frozen_a < amount {
			w().frozen_a = amount;
		}
		Ok(())
	}
	fn thaw(asset: u32, r: &RuntimeFreezeReason, who: &Acc) -> DispatchResult {
		Self::set_freeze(asset, r, who, 0)
	}
	fn set_frozen(asset: u32, r: &RuntimeFreezeReason, who: &Acc, amount: Bal, f: Fortitude) -> DispatchResult {
		if f != Fortitude::Force && <Self as fungibles::freeze::Inspect<Acc>>::balance_freezable(asset, who) < amount {
			return fails();
		}
		Self::set_freeze(asset, r, who, amount)
	}
}

// --- memberships ---------------------------------------------------------------------------------
pub struct Members;
pub struct Pool(Option<(Cid, u32)>);
impl Iterator for Pool {
	type Item = (Cid, u32);
	fn next(&mut self) -> Option<(Cid, u32)> {
		self.0.take()
	}
}
impl mb::Inspect<Acc> for Members {
	type Group = Cid;
	type Membership = u32;
	fn user_memberships(who: &Acc, group: Option<Cid>) -> Box<dyn Iterator<Item = (Cid, u32)>> {
		let w = w();
		w.pool_asked += 1;
		w.pool_of = *who;
		w.pool_filter = group;
		Box::new(Pool(w.pool))
	}
	fn is_member_of(group: &Cid, who: &Acc) -> bool {
		let w = w();
		w.asked = Some((*group, *who));
		w.answer = (*who == w.holder && *group == w.group) || nd::any();
		w.answer
	}
	fn check_membership(who: &Acc, m: &u32) -> Option<Cid> {
		if *m == MEM {
			if *who == w().holder {
				Some(w().group)
			} else {
				None
			}
		} else {
			if nd::any() {
				Some(Cid(nd::any()))
			} else {
				None
			}
		}
	}
	fn members_total(group: &Cid) -> u32 {
		w().total_of = *group;
		w().members
	}
}
impl mb::Manager<Acc, ()> for Members {
	fn assign(group: &Cid, m: &u32, who: &Acc) -> DispatchResult {
		let w = w();
		if refused() {
			return Err(LOW);
		}
		w.assigned += 1;
		w.assign = (*group, *m, *who);
		Ok(())
	}
	fn release(group: &Cid, m: &u32) -> DispatchResult {
		let w = w();
		if refused() {
			return Err(LOW);
		}
		w.released += 1;
		w.release = (*group, *m);
		Ok(())
	}
}
impl mb::Rank<Acc, ()> for Members {
	fn rank_of(group: &Cid, m: &u32) -> Option<GenericRank> {
		if *m == MEM && *group == w().group {
			w().rank
		} else if nd::any() {
			Some(GenericRank(nd::any()))
		} else {
			None
		}
	}
	fn set_rank(group: &Cid, m: &u32, rank: impl Into<GenericRank>) -> DispatchResult {
		let w = w();
		if refused() {
			return Err(LOW);
		}
		w.ranked += 1;
		w.rank_set = (*group, *m, rank.into().0);
		Ok(())
	}
	fn ranks_total(group: &Cid) -> u32 {
		w().total_of = *group;
		w().ranks
	}
}
pub const ONE: NonZeroU8 = NonZeroU8::MIN;

// --- polls ---------------------------------------------------------------------------------------
pub struct Polls;
pub fn tally() -> &'static mut Tally<Rt> {
	unsafe { (*core::ptr::addr_of_mut!(TALLY)).get_or_insert_with(Default::default) }
}
impl Polling<Tally<Rt>> for Polls {
	type Index = u32;
	type Votes = u32;
	type Class = Cid;
	type Moment = u32;
	fn classes() -> Vec<Cid> {
		nd::model_gap!(false, "poll classes");
		Vec::new()
	}
	fn as_ongoing(index: u32) -> Option<(Tally<Rt>, Cid)> {
		if index != POLL {
			w().other_poll = true;
			return None;
		}
		if w().status == 1 {
			Some((dup(tally()), w().class))
		} else {
			None
		}
	}
	fn access_poll<R>(index: u32, f: impl FnOnce(PollStatus<&mut Tally<Rt>, u32, Cid>) -> R) -> R {
		if index != POLL {
			w().other_poll = true;
			return f(PollStatus::None);
		}
		match w().status {
			0 => f(PollStatus::None),
			1 => f(PollStatus::Ongoing(tally(), w().class)),
			_ => f(PollStatus::Completed(nd::any(), nd::any())),
		}
	}
	/// A change is kept only if `f` succeeds.
	fn try_access_poll<R>(
		index: u32,
		f: impl FnOnce(PollStatus<&mut Tally<Rt>, u32, Cid>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError> {
		let before = dup(tally());
		let r = Self::access_poll(index, f);
		if r.is_err() {
			*tally() = before;
		}
		r
	}
}
/// Ayes, nays, bare ayes.
pub type Counts = (u32, u32, u32);
pub fn tally_of(c: Counts) -> Tally<Rt> {
	let (a, n, b) = (c.0.to_le_bytes(), c.1.to_le_bytes(), c.2.to_le_bytes());
	let bytes = [a[0], a[1], a[2], a[3], n[0], n[1], n[2], n[3], b[0], b[1], b[2], b[3]];
	match Tally::<Rt>::decode(&mut &bytes[..]) {
		Ok(t) => t,
		Err(_) => {
			nd::model_gap!(false, "tally layout");
			Default::default()
		}
	}
}
pub fn counts(t: &Tally<Rt>) -> Counts {
	struct Buf([u8; 12], usize);
	impl Output for Buf {
		fn write(&mut self, b: &[u8]) {
			let mut i = 0;
			while i < b.len() {
				self.0[self.1] = b[i];
				self.1 += 1;
				i += 1;
			}
		}
	}
	let mut o = Buf([0; 12], 0);
	t.encode_to(&mut o);
	nd::model_gap!(o.1 == 12, "tally layout");
	let b = o.0;
	(
		u32::from_le_bytes([b[0], b[1], b[2], b[3]]),
		u32::from_le_bytes([b[4], b[5], b[6], b[7]]),
		u32::from_le_bytes([b[8], b[9], b[10], b[11]]),
	)
}

// --- what full registration and membership creation use --------------------------------------------
impl pm::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type CreateCollection = Collections;
	type Tracks = Tracks;
	type RankedCollective = Collective;
	type WeightInfo = ();
	type RegisterOrigin = Paid<2>;
	type CreateMembershipsOrigin = Minter;
	type MembershipId = u32;
	type MembershipsManagerCollectionId = ManagerCollection;
	type MembershipsManagerOwner = ManagerOwner;
	type CreateMemberships = Collections;
}
pub struct ManagerCollection;
impl Get<Cid> for ManagerCollection {
	fn get() -> Cid {
		Cid(1)
	}
}
pub const OWNER: Acc = Acc(0xBEEF, 0);
pub struct ManagerOwner;
impl Get<Acc> for ManagerOwner {
	fn get() -> Acc {
		OWNER
	}
}
pub struct Collections;
impl nft::Inspect<Acc> for Collections {
	type ItemId = u32;
	type CollectionId = Cid;
}
impl nft::Create<Acc, CollectionConfig<Bal, u32, Cid>> for Collections {
	fn create_collection(_: &Acc, _: &Acc, _: &CollectionConfig<Bal, u32, Cid>) -> Result<Cid, DispatchError> {
		nd::model_gap!(false, "create_collection");
		Err(LOW)
	}
	fn create_collection_with_id(c: Cid, who: &Acc, admin: &Acc, _: &CollectionConfig<Bal, u32, Cid>) -> Result<(), DispatchError> {
		if refused() {
			return Err(LOW);
		}
		w().collections += 1;
		w().collection = (c, *who, *admin);
		Ok(())
	}
}
impl nft::Mutate<Acc, ()> for Collections {
	fn mint_into(c: &Cid, item: &u32, who: &Acc, _: &(), _: bool) -> DispatchResult {
		let w = w();
		if refused() {
			return Err(LOW);
		}
		if *c != Cid(1) || *who != OWNER || w.first.checked_add(w.minted) != Some(*item) {
			w.wrong_mint = true;
		}
		w.minted += 1;
		Ok(())
	}
}
impl nft::Trading<Acc, Bal> for Collections {
	fn set_price(c: &Cid, item: &u32, sender: &Acc, price: Option<Bal>, buyer: Option<Acc>) -> DispatchResult {
		let w = w();
		if refused() {
			return Err(LOW);
		}
		if *c != Cid(1)
			|| *sender != OWNER
			|| price != Some(w.price)
			|| buyer.is_some()
			|| w.first.checked_add(w.priced) != Some(*item)
			|| w.priced >= w.minted
		{
			w.wrong_mint = true;
		}
		w.priced += 1;
		Ok(())
	}
}
pub struct Tracks;
impl pallet_referenda::TracksInfo<Bal, u32> for Tracks {
	type Id = Cid;
	type RuntimeOrigin = OriginCaller;
}
impl fc_traits_tracks::MutateTracks<Bal, u32> for Tracks {
	type Id = Cid;
	type RuntimeOrigin = OriginCaller;
	fn insert(id: Cid, info: TrackInfo<Bal, u32>, o: OriginCaller) -> DispatchResult {
		if refused() {
			return Err(LOW);
		}
		let w = w();
		w.tracks += 1;
		w.track = id;
		w.track_info = Some(info);
		w.track_origin = Some(o);
		Ok(())
	}
	fn update(_: Cid, _: TrackInfo<Bal, u32>) -> DispatchResult {
		nd::model_gap!(false, "track update");
		Err(LOW)
	}
	fn remove(_: Cid, _: OriginCaller) -> DispatchResult {
		nd::model_gap!(false, "track removal");
		Err(LOW)
	}
}
pub struct Collective;
impl RankedMembers for Collective {
	type AccountId = Acc;
	type Rank = u16;
	fn induct(who: &Acc) -> DispatchResult {
		if refused() {
			return Err(LOW);
		}
		w().inducted += 1;
		w().induct = *who;
		Ok(())
	}
}

// --- symbolic inputs -------------------------------------------------------------------------------
pub fn acc() -> Acc {
	Acc(nd::id64(WHO.0), nd::few64(0))
}
pub fn cid() -> Cid {
	Cid(nd::id32(5))
}
pub fn asset() -> u32 {
	nd::id32(5)
}
pub fn ledgers() {
	let w = w();
	w.x = acc();
	w.xa = asset();
	w.free = nd::any();
	w.frozen = nd::any();
	w.frozen_a = nd::any();
	w.freezable = nd::any();
	w.freezable_a = nd::any();
	w.issuance = nd::any();
	w.issuance_a = nd::any();
}
pub fn signed(a: Acc) -> RuntimeOrigin {
	RawOrigin::Signed(a).into()
}
/// The `k`-th kind of origin (concrete, easier on the verifier), with any content.
pub fn caller(k: u8) -> OriginCaller {
	match k {
		0 => OriginCaller::system(RawOrigin::Root),
		1 => OriginCaller::system(RawOrigin::None),
		2 => OriginCaller::system(RawOrigin::Signed(acc())),
		3 => OriginCaller::Communities(pc::Origin::<Rt>::new(cid())),
		4 => {
			let mut o = pc::Origin::<Rt>::new(cid());
			o.with_subset(subset(nd::below(4)));
			OriginCaller::Communities(o)
		}
		_ => OriginCaller::Other(OtherOrigin(nd::id32(3))),
	}
}
pub fn subset(k: u8) -> pc::origin::Subset<Rt> {
	use pc::origin::Subset::*;
	match k {
		0 => Member(nd::any()),
		1 => Members { count: nd::any() },
		2 => Fraction(sp_runtime::Permill::from_parts(nd::any())),
		_ => AtLeastRank(GenericRank(nd::any())),
	}
}
pub fn info() -> Option<CommunityInfo> {
	if nd::any() {
		let mut c = CommunityInfo::default();
		c.state = if nd::any() { CommunityState::Active } else { CommunityState::Blocked };
		Some(c)
	} else {
		None
	}
}
pub fn active(c: &Option<CommunityInfo>) -> bool {
	matches!(c, Some(c) if c.state == CommunityState::Active)
}
pub fn same_info(a: &Option<CommunityInfo>, b: &Option<CommunityInfo>) -> bool {
	match (a, b) {
		(None, None) => true,
		(Some(a), Some(b)) => a.state == b.state,
		_ => false,
	}
}
pub fn dup<T>(t: &T) -> T {
	frame_support::storage::dup(t)
}
