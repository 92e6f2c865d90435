//! Contracts of the community calls (C01..C14) and of the communities manager (M01, M02), discharged on the pallets'
//! real source. Errors roll back (FRAME), so postconditions speak about successful calls; a call's result is stated
//! exactly: it succeeds if and only if its conditions hold and no component refuses (`w().refused`).
#![allow(static_mut_refs)]
pub mod manager;
pub mod votes;
pub mod world;
use fc_traits_memberships::GenericRank;
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg};
use nd::{ens, reach, req};
use pallet_communities::{
	origin::{AsSignedByCommunity, AsSignedByStaticCommunity, EnsureCommunity, EnsureMember, Subset},
	CommunityDecisionMethod, CommunityIdFor, CommunityState, Event, Info, Origin, Pallet,
};
use sp_runtime::{traits::TryConvert, Permill};
use world::*;
use xcm::latest::{BodyId, BodyPart, Junction, Location};

const ROOT: u8 = 0;
const NONE: u8 = 1;
const SIGNED: u8 = 2;
const COMMUNITY: u8 = 3;
const SUBSET: u8 = 4;
const OTHER: u8 = 5;

fn admin_of(o: &OriginCaller) -> Option<Cid> {
	CommunityIdFor::<Rt>::table().peek(o)
}
fn stray() -> u32 {
	Info::<Rt>::table().stray_writes + CommunityIdFor::<Rt>::table().stray_writes + CommunityDecisionMethod::<Rt>::table().stray_writes
}
fn last_event() -> &'static Option<RuntimeEvent> {
	&frame_system::Pallet::<Rt>::state().last
}
fn event_is(e: Event<Rt>) -> bool {
	matches!(last_event(), Some(RuntimeEvent::Communities(x)) if *x == e)
}
/// The community an origin speaks for when it is accepted: its own id, or the one it is registered for.
struct Speaker {
	o: OriginCaller,
	/// the community whose state decides
	c: Cid,
	ok: bool,
}
fn speaker(k: u8) -> Speaker {
	start();
	ledgers();
	let o = caller(k);
	let registered = if nd::any() { Some(cid()) } else { None };
	let i = info();
	let own = match &o {
		OriginCaller::Communities(r) => Some(r.id()),
		_ => registered,
	};
	let c = own.unwrap_or(cid());
	CommunityIdFor::<Rt>::table().track(dup(&o), registered);
	Info::<Rt>::table().track(c, dup(&i));
	let ok = own.is_some() && active(&i) && k != ROOT && k != NONE;
	Speaker { o, c, ok }
}
fn origin(o: &OriginCaller) -> RuntimeOrigin {
	RuntimeOrigin { caller: dup(o) }
}

// --- registration ---------------------------------------------------------------------------------

fn c01(by: u8, k: u8) {
	start();
	ledgers();
	let (id, other) = (cid(), cid());
	req!(other != id);
	let (admin, third) = (caller(k), caller(SIGNED));
	req!(third != admin);
	let (i0, j0) = (info(), info());
	let a0 = if nd::any() { Some(cid()) } else { None };
	let t0 = if nd::any() { Some(cid()) } else { None };
	Info::<Rt>::table().track(id, dup(&i0));
	Info::<Rt>::table().track(other, dup(&j0));
	CommunityIdFor::<Rt>::table().track(dup(&admin), a0);
	CommunityIdFor::<Rt>::table().track(dup(&third), t0);
	let deposit = if nd::any() { Some((nd::any::<Bal>(), acc(), acc())) } else { None };
	w().deposit = deposit;
	let mut free = w().free;
	let o = caller(by);
	let entitled = o == OriginCaller::Other(OtherOrigin(1));
	let r = Pallet::<Rt>::create(origin(&o), dup(&admin), id);
	let ok = entitled && i0.is_none() && a0.is_none();
	ens!(r.is_ok() == (ok && !w().refused), "succeeds exactly for an unused id and an admin without a community");
	reach!(by != OTHER || r.is_ok(), "registration succeeds");
	if r.is_err() {
		return;
	}
	ens!(active(&Info::<Rt>::table().peek(&id)), "the community is active");
	ens!(admin_of(&admin) == Some(id), "the given origin is its admin");
	ens!(same_info(&Info::<Rt>::table().peek(&other), &j0) && admin_of(&third) == t0, "no other community is affected");
	ens!(stray() == 0, "nothing else is written");
	if let Some((amount, from, to)) = deposit {
		if from == w().x {
			free = free.wrapping_sub(amount);
		}
		if to == w().x {
			free = free.wrapping_add(amount);
		}
		ens!(w().transfers == 1, "the deposit moves once");
	} else {
		ens!(w().transfers == 0, "nothing is paid when nothing is due");
	}
	ens!(w().free == free, "exactly the deposit moves");
	let s = frame_system::Pallet::<Rt>::state();
	let b = s.provider_of;
	let kept = Acc(
		u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]),
		u64::from_le_bytes([b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]]),
	);
	ens!(s.providers_inc == 1 && s.providers_dec == 0 && kept == account_of(id), "the community's account is kept alive");
}

// --- administration -------------------------------------------------------------------------------

fn c02(k: u8, k2: u8) {
	let s = speaker(k);
	let (new, third) = (caller(k2), caller(SIGNED));
	let same = new == s.o;
	req!(third != s.o && third != new);
	let o0 = admin_of(&s.o);
	let n0 = if nd::any() { Some(cid()) } else { None };
	let t0 = if nd::any() { Some(cid()) } else { None };
	if !same {
		CommunityIdFor::<Rt>::table().track(dup(&new), n0);
	}
	CommunityIdFor::<Rt>::table().track(dup(&third), t0);
	let i0 = Info::<Rt>::table().peek(&s.c);
	let r = Pallet::<Rt>::set_admin_origin(origin(&s.o), dup(&new));
	let ok = s.ok && o0 == Some(s.c) && (same || n0.is_none());
	ens!(r.is_ok() == ok, "only the current admin, and only to an origin without a community");
	reach!(k == ROOT || k == NONE || r.is_ok(), "hand-over succeeds");
	if r.is_err() {
		return;
	}
	ens!(admin_of(&new) == Some(s.c), "the new origin controls that community");
	ens!(same || admin_of(&s.o).is_none(), "the old origin controls nothing");
	ens!(admin_of(&third) == t0, "no other admin changes");
	ens!(same_info(&i0, &Info::<Rt>::table().peek(&s.c)) && stray() == 0, "nothing else is written");
}

pub fn method(k: u8) -> Method {
	match k {
		0 => Method::Membership,
		1 => Method::NativeToken,
		2 => Method::CommunityAsset(asset(), nd::any()),
		_ => Method::Rank,
	}
}
fn c03(k: u8, m: u8) {
	let s = speaker(k);
	let (id, other) = (cid(), cid());
	req!(id != other);
	let (m0, wanted) = (method(3 - m), method(m));
	CommunityDecisionMethod::<Rt>::table().track(id, Some(method(1)));
	CommunityDecisionMethod::<Rt>::table().track(other, Some(dup(&m0)));
	let r = Pallet::<Rt>::set_decision_method(origin(&s.o), id, dup(&wanted));
	ens!(r.is_ok() == (s.ok && s.c == id), "only an admin of that very community");
	reach!(k == ROOT || k == NONE || r.is_ok(), "the method is changed");
	if r.is_err() {
		return;
	}
	ens!(CommunityDecisionMethod::<Rt>::table().peek(&id) == Some(wanted), "the stored method is the requested one");
	ens!(CommunityDecisionMethod::<Rt>::table().peek(&other) == Some(m0), "no other community's method changes");
	ens!(stray() == 0, "nothing else is written");
}

// --- members --------------------------------------------------------------------------------------

fn c04_add(k: u8) {
	let s = speaker(k);
	let who = acc();
	w().pool = if nd::any() { Some((cid(), nd::any())) } else { None };
	let pool = w().pool;
	let r = Pallet::<Rt>::add_member(origin(&s.o), who);
	ens!(r.is_ok() == (s.ok && pool.is_some() && !w().refused), "only for the community, while memberships are left");
	reach!(k == ROOT || k == NONE || r.is_ok(), "a member is added");
	if r.is_err() {
		return;
	}
	let Some((_, m)) = pool else { return };
	ens!(w().pool_of == account_of(s.c), "the membership was owned by the community's account");
	ens!(w().assigned == 1 && w().assign == (s.c, m, who) && w().released == 0, "exactly that membership goes to the person");
	ens!(event_is(Event::MemberAdded { who, membership_id: m }), "the event names person and membership");
}
fn c04_remove(k: u8) {
	let s = speaker(k);
	let who = acc();
	w().holder = acc();
	w().group = cid();
	let r = Pallet::<Rt>::remove_member(origin(&s.o), who, MEM);
	let ok = s.ok && who == w().holder && s.c == w().group;
	ens!(r.is_ok() == (ok && !w().refused), "only a membership the person holds in the calling community");
	reach!(k == ROOT || k == NONE || r.is_ok(), "a member is removed");
	if r.is_err() {
		return;
	}
	ens!(w().released == 1 && w().release == (s.c, MEM) && w().assigned == 0, "exactly that membership is released");
	ens!(event_is(Event::MemberRemoved { who, membership_id: MEM }), "the event names person and membership");
}
fn c05(k: u8, up: bool) {
	let s = speaker(k);
	w().group = cid();
	w().holder = acc();
	w().rank = if nd::any() { Some(GenericRank(nd::any())) } else { None };
	let (own, rank) = (w().group == s.c, w().rank);
	let r = if up { Pallet::<Rt>::promote(origin(&s.o), MEM) } else { Pallet::<Rt>::demote(origin(&s.o), MEM) };
	ens!(!own || r.is_ok() == (s.ok && rank.is_some() && !w().refused), "only a ranked membership of the calling community");
	ens!(r.is_err() || s.ok, "only for the community");
	reach!(k == ROOT || k == NONE || r.is_ok() && own, "the rank changes");
	if r.is_err() {
		return;
	}
	ens!(w().ranked == 1 && w().rank_set.0 == s.c && w().rank_set.1 == MEM, "only that membership's rank is set");
	ens!(
		event_is(Event::MembershipRankUpdated { membership_id: MEM, rank: GenericRank(w().rank_set.2) }),
		"the reported rank is the new rank"
	);
	if let (true, Some(GenericRank(n))) = (own, rank) {
		let want = if up { n.saturating_add(1) } else { n.saturating_sub(1) };
		ens!(w().rank_set.2 == want, "the rank changes by exactly one");
	}
}

// --- origins --------------------------------------------------------------------------------------

fn c12(k: u8) {
	let s = speaker(k);
	let r = <EnsureCommunity<Rt> as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&s.o));
	reach!(k == ROOT || k == NONE || r.is_ok(), "the origin is accepted");
	match r {
		Ok(c) => ens!(s.ok && c == s.c, "accepted only for its own existing active community"),
		Err(o) => ens!(!s.ok && o.caller == s.o, "refused only otherwise, and handed back unchanged"),
	}
	ens!(stray() == 0 && Info::<Rt>::table().writes == 0, "nothing is written");
}
fn c12_block() {
	let s = speaker(COMMUNITY);
	let other = cid();
	req!(other != s.c);
	let j0 = info();
	Info::<Rt>::table().track(other, dup(&j0));
	let exists = Info::<Rt>::table().peek(&s.c).is_some();
	let block: bool = nd::any();
	Pallet::<Rt>::force_state(&s.c, if block { CommunityState::Blocked } else { CommunityState::Active });
	let r = <EnsureCommunity<Rt> as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&s.o));
	ens!(r.is_ok() == (exists && !block), "a blocked community cannot act, an unblocked one can");
	reach!(r.is_ok(), "acts again");
	ens!(same_info(&Info::<Rt>::table().peek(&other), &j0), "other communities keep their state");
	ens!(Info::<Rt>::table().peek(&s.c).is_some() == exists && stray() == 0, "blocking creates no community");
}
fn c13_account() {
	let (a, b) = (cid(), cid());
	let (x, y) = (Pallet::<Rt>::community_account(&a), Pallet::<Rt>::community_account(&b));
	ens!(x == account_of(a), "the account is derived from the community's id");
	ens!((x == y) == (a == b), "different communities have different accounts");
	reach!(a != b, "two communities");
}
fn c13_dispatch(k: u8) {
	let s = speaker(k);
	let n = nd::any();
	let r = Pallet::<Rt>::dispatch_as_account(origin(&s.o), Box::new(RuntimeCall::Probe(n)));
	ens!(r.is_ok() == (s.ok && !w().refused), "only for an acting community, and reports the call's result");
	ens!((w().dispatched == 1) == s.ok && w().dispatched <= 1, "the call is dispatched once, or not at all");
	ens!(!s.ok || w().signer == Some(account_of(s.c)) && w().dispatched_call == n, "it runs as that community's account");
	reach!(k == ROOT || k == NONE || r.is_ok(), "a call is dispatched");
}
struct Five;
impl sp_runtime::traits::Get<Cid> for Five {
	fn get() -> Cid {
		w().class
	}
}
fn c13_signed(k: u8) {
	start();
	w().class = cid();
	let o = caller(k);
	let own = match &o {
		OriginCaller::Communities(r) => Some(r.id()),
		_ => None,
	};
	let r = <AsSignedByCommunity<Rt> as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&o));
	ens!(r.ok() == own.map(account_of), "a community origin signs as its own account, no other origin does");
	let r = <AsSignedByStaticCommunity<Rt, Five> as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&o));
	let fixed = own == Some(w().class);
	reach!(own.is_none() || r.is_ok(), "the configured community signs");
	ens!(r.is_ok() == fixed, "only the configured community");
	ens!(r.is_err() || r == Ok(account_of(w().class)), "signs as that community's account");
}
fn c13_member(k: u8) {
	start();
	w().holder = acc();
	w().group = cid();
	let (o, c) = (caller(k), cid());
	let r = <EnsureMember<Rt> as EnsureOriginWithArg<RuntimeOrigin, Cid>>::try_origin(origin(&o), &c);
	let who = match &o {
		OriginCaller::system(frame_support::dispatch::RawOrigin::Signed(a)) => Some(*a),
		_ => None,
	};
	ens!(r.is_ok() == matches!(who, Some(a) if members_says(&c, a)), "only a signer who is a member of that community");
	reach!(k != SIGNED || r.is_ok(), "a member is accepted");
}
fn members_says(c: &Cid, a: Acc) -> bool {
	w().asked == Some((*c, a)) && w().answer
}

// --- cross-chain identity ---------------------------------------------------------------------------

fn plurality(id: u32, part: BodyPart) -> Junction {
	Junction::Plurality { id: BodyId::Index(id), part }
}
fn c14_out(k: u8) {
	let id = cid();
	let mut o = Origin::<Rt>::new(id);
	let want = if k == 9 { Some(BodyPart::Voice) } else {
		let s = subset(k);
		let part = match &s {
			Subset::Member(_) => Some(BodyPart::Members { count: 1 }),
			Subset::Members { count } => Some(BodyPart::Members { count: *count }),
			Subset::Fraction(p) => Some(BodyPart::Fraction { nom: p.deconstruct(), denom: 1_000_000 }),
			Subset::AtLeastRank(_) => None,
		};
		o.with_subset(s);
		part
	};
	let j = Junction::try_from(dup(&o));
	ens!(j.is_ok() == want.is_some(), "a part that cannot be expressed is refused");
	ens!(matches!(&j, Err(_)) || matches!(&j, Ok(j) if is_plurality(j, id.0, &want)), "the junction carries id and part");
	let l = <Origin<Rt> as TryConvert<RuntimeOrigin, Location>>::try_convert(origin(&OriginCaller::Communities(dup(&o))));
	ens!(l.is_ok() == want.is_some(), "no location for what cannot be expressed");
	ens!(
		matches!(&l, Err(_)) || matches!(&l, Ok(l) if matches!(l.unpack(), (0, [j]) if is_plurality(j, id.0, &want))),
		"the location is that junction"
	);
	reach!(true, "converted");
}
fn is_plurality(j: &Junction, want: u32, w: &Option<BodyPart>) -> bool {
	match (j, w) {
		(Junction::Plurality { id: BodyId::Index(i), part }, Some(w)) => *i == want && part == w,
		_ => false,
	}
}
fn c14_out_other(k: u8) {
	let o = caller(k);
	let l = <Origin<Rt> as TryConvert<RuntimeOrigin, Location>>::try_convert(origin(&o));
	ens!(matches!(&l, Err(x) if x.caller == o), "other origins are handed back");
	reach!(true, "refused");
}
fn c14_in(k: u8) {
	let id: u32 = nd::any();
	let (n, d): (u32, u32) = (nd::any(), nd::any());
	let part = match k {
		0 => BodyPart::Voice,
		1 => BodyPart::Members { count: n },
		2 => BodyPart::Fraction { nom: n, denom: d },
		3 => BodyPart::AtLeastProportion { nom: n, denom: d },
		_ => BodyPart::MoreThanProportion { nom: n, denom: d },
	};
	let mut want = Origin::<Rt>::new(Cid(id));
	match k {
		0 => (),
		1 => want.with_subset(Subset::Members { count: n }),
		_ => want.with_subset(Subset::Fraction(Permill::from_rational(n, d))),
	}
	let r = Origin::<Rt>::try_from(plurality(id, part));
	if k <= 2 {
		ens!(r == Ok(want), "the origin of that community and part");
	} else {
		ens!(r.is_err(), "a part that cannot be expressed is refused");
	}
	reach!(true, "converted");
}
fn c14_in_exact() {
	// a fraction in parts per million survives unchanged
	let (id, p): (u32, Permill) = (nd::any(), Permill::from_parts(nd::any()));
	let mut o = Origin::<Rt>::new(Cid(id));
	o.with_subset(Subset::Fraction(p));
	let j = Junction::try_from(dup(&o));
	let part = Some(BodyPart::Fraction { nom: p.deconstruct(), denom: 1_000_000 });
	ens!(matches!(&j, Ok(j) if is_plurality(j, id, &part)), "as parts per million");
	reach!(true, "converted");
}
fn c14_in_other(k: u8) {
	let part = BodyPart::Voice;
	let j = match k {
		0 => Junction::Parachain(nd::any()),
		1 => Junction::GeneralIndex(nd::any()),
		2 => Junction::PalletInstance(nd::any()),
		3 => Junction::Plurality { id: BodyId::Unit, part },
		4 => Junction::Plurality { id: BodyId::Executive, part },
		5 => Junction::Plurality { id: BodyId::Technical, part },
		6 => Junction::Plurality { id: BodyId::Moniker(nd::any()), part },
		7 => Junction::AccountId32 { network: None, id: nd::any() },
		_ => Junction::OnlyChild,
	};
	ens!(Origin::<Rt>::try_from(j).is_err(), "any other junction is refused");
	reach!(true, "refused");
}

nd::harnesses! {
	c01_create_signed => c01(OTHER, SIGNED);
	c01_create_community => c01(OTHER, COMMUNITY);
	c01_create_other => c01(OTHER, OTHER);
	c01_not_by_root => c01(ROOT, SIGNED);
	c01_not_by_signed => c01(SIGNED, SIGNED);
	c02_signed_signed => c02(SIGNED, SIGNED);
	c02_signed_other => c02(SIGNED, OTHER);
	c02_signed_community => c02(SIGNED, COMMUNITY);
	c02_other_signed => c02(OTHER, SIGNED);
	c02_community_signed => c02(COMMUNITY, SIGNED);
	c02_community_community => c02(COMMUNITY, COMMUNITY);
	c02_root => c02(ROOT, SIGNED);
	c02_none => c02(NONE, SIGNED);
	c03_signed_membership => c03(SIGNED, 0);
	c03_signed_native => c03(SIGNED, 1);
	c03_signed_asset => c03(SIGNED, 2);
	c03_signed_rank => c03(SIGNED, 3);
	c03_community_asset => c03(COMMUNITY, 2);
	c03_community_rank => c03(COMMUNITY, 3);
	c03_other_membership => c03(OTHER, 0);
	c03_root => c03(ROOT, 3);
	c03_none => c03(NONE, 3);
	c04_add_signed => c04_add(SIGNED);
	c04_add_community => c04_add(COMMUNITY);
	c04_add_other => c04_add(OTHER);
	c04_add_root => c04_add(ROOT);
	c04_remove_signed => c04_remove(SIGNED);
	c04_remove_community => c04_remove(COMMUNITY);
	c04_remove_other => c04_remove(OTHER);
	c04_remove_root => c04_remove(ROOT);
	c05_promote_signed => c05(SIGNED, true);
	c05_promote_community => c05(COMMUNITY, true);
	c05_promote_root => c05(ROOT, true);
	c05_demote_signed => c05(SIGNED, false);
	c05_demote_community => c05(COMMUNITY, false);
	c05_demote_root => c05(ROOT, false);
	c12_root => c12(ROOT);
	c12_none => c12(NONE);
	c12_signed => c12(SIGNED);
	c12_community => c12(COMMUNITY);
	c12_subset => c12(SUBSET);
	c12_other => c12(OTHER);
	c12_blocked => c12_block();
	c13_accounts => c13_account();
	c13_dispatch_signed => c13_dispatch(SIGNED);
	c13_dispatch_community => c13_dispatch(COMMUNITY);
	c13_dispatch_root => c13_dispatch(ROOT);
	c13_dispatch_other => c13_dispatch(OTHER);
	c13_signed_root => c13_signed(ROOT);
	c13_signed_none => c13_signed(NONE);
	c13_signed_signed => c13_signed(SIGNED);
	c13_signed_community => c13_signed(COMMUNITY);
	c13_signed_subset => c13_signed(SUBSET);
	c13_signed_other => c13_signed(OTHER);
	c13_member_root => c13_member(ROOT);
	c13_member_signed => c13_member(SIGNED);
	c13_member_community => c13_member(COMMUNITY);
	c13_member_other => c13_member(OTHER);
	c14_out_voice => c14_out(9);
	c14_out_member => c14_out(0);
	c14_out_members => c14_out(1);
	c14_out_fraction => c14_out(2);
	c14_out_rank => c14_out(3);
	c14_out_root => c14_out_other(ROOT);
	c14_out_signed => c14_out_other(SIGNED);
	c14_out_others => c14_out_other(OTHER);
	c14_in_voice => c14_in(0);
	c14_in_members => c14_in(1);
	c14_in_fraction => c14_in(2);
	c14_in_at_least => c14_in(3);
	c14_in_more_than => c14_in(4);
	c14_fraction_exact => c14_in_exact();
	c14_in_parachain => c14_in_other(0);
	c14_in_index => c14_in_other(1);
	c14_in_pallet => c14_in_other(2);
	c14_in_unit => c14_in_other(3);
	c14_in_executive => c14_in_other(4);
	c14_in_technical => c14_in_other(5);
	c14_in_moniker => c14_in_other(6);
	c14_in_account => c14_in_other(7);
	c14_in_only_child => c14_in_other(8);
}
