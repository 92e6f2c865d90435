//! Voting: C06..C11. The acting account, its membership and the poll are fixed (see `world`); the community, the
//! holder of the membership, amounts, assets, ranks, counts and ledgers are arbitrary. Kinds of votes, methods and
//! poll states are concrete per harness.
use crate::{method, world::*};
use fc_traits_memberships::GenericRank;
use frame_support::traits::VoteTally;
use nd::{ens, reach, req};
use pallet_communities::{CommunityDecisionMethod, CommunityVoteLocks, CommunityVotes, Event, Pallet, Tally};
use sp_runtime::{per_things::ratio, Perbill};

const STANDARD: u8 = 0;
const NATIVE: u8 = 1;
const ASSET: u8 = 2;
const MEMBERSHIP: u8 = 0;
const RANK: u8 = 3;
// methods 1 and 2 are NATIVE and ASSET
const UNKNOWN: u8 = 0;
const ONGOING: u8 = 1;
const COMPLETED: u8 = 2;

fn vote(k: u8) -> VoteT {
	match k {
		STANDARD => VoteT::Standard(nd::any()),
		NATIVE => VoteT::NativeBalance(nd::any(), nd::any()),
		_ => VoteT::AssetBalance(nd::any(), asset(), nd::any()),
	}
}
fn say(v: &VoteT) -> bool {
	match v {
		VoteT::Standard(s) | VoteT::NativeBalance(s, _) | VoteT::AssetBalance(s, _, _) => *s,
	}
}
fn amount(v: &VoteT) -> Bal {
	match v {
		VoteT::Standard(_) => 0,
		VoteT::NativeBalance(_, a) | VoteT::AssetBalance(_, _, a) => *a,
	}
}
/// Votes weigh their amount, as far as the counter goes.
fn weight(v: &VoteT) -> u32 {
	match v {
		VoteT::Standard(_) => 1,
		v => {
			if amount(v) > u32::MAX as Bal {
				u32::MAX
			} else {
				amount(v) as u32
			}
		}
	}
}
fn stored_vote(p: u32, m: u32) -> Option<(VoteT, Acc)> {
	CommunityVotes::<Rt>::table().peek(&(p, m))
}
fn lock(a: Acc, p: u32) -> Option<VoteT> {
	CommunityVoteLocks::<Rt>::table().peek(&(a, p))
}

/// A member about to vote: `m` the kind of decision method, `prev` the kind of vote recorded before (9: none) and by
/// whom, `locks` the kinds of the account's other locks.
struct Case {
	method: Method,
	before: Counts,
	prev: Option<VoteT>,
	multiplier: u32,
	frozen: Bal,
	frozen_a: Bal,
}
fn case(m: u8, status: u8, prev: u8, voter: Acc, locks: [u8; 3]) -> Case {
	start();
	ledgers();
	let w = w();
	w.holder = if nd::any() { WHO } else { acc() };
	w.group = cid();
	w.class = cid();
	w.status = status;
	w.rank = if nd::any() { Some(GenericRank(nd::any())) } else { None };
	let mt = method(m);
	CommunityDecisionMethod::<Rt>::table().track(w.group, Some(dup(&mt)));
	let before = (nd::any(), nd::any(), nd::any());
	*tally() = tally_of(before);
	let prev = if prev == 9 { None } else { Some(vote(prev)) };
	let votes = CommunityVotes::<Rt>::table();
	votes.track((POLL, MEM), prev.as_ref().map(|v| (dup(v), voter)));
	// another membership's vote on the poll, this membership's vote on another poll
	votes.track((POLL, MEM + 1), Some((vote(NATIVE), acc())));
	votes.track((POLL + 1, MEM), Some((vote(STANDARD), acc())));
	let t = CommunityVoteLocks::<Rt>::table();
	t.track((WHO, POLL), None);
	if let Some(v) = &prev {
		if weightless(v) {
			// a vote without tokens leaves no lock
		} else if voter == WHO {
			t.e[0].val = Some(dup(v));
		} else {
			t.track((voter, POLL), Some(dup(v)));
		}
	}
	other_lock(0, locks[0]);
	other_lock(1, locks[1]);
	other_lock(2, locks[2]);
	let multiplier = if m == RANK { w.rank.map(|r| r.0 as u32).unwrap_or(0) } else { 1 };
	Case { method: mt, before, prev, multiplier, frozen: w.frozen, frozen_a: w.frozen_a }
}
fn weightless(v: &VoteT) -> bool {
	matches!(v, VoteT::Standard(_))
}
fn other_lock(i: u32, k: u8) {
	if k != 9 {
		CommunityVoteLocks::<Rt>::table().track((WHO, POLL + 10 + i), Some(vote(k)));
	}
}
/// Largest of the other locks in the followed token.
fn largest(native: bool) -> Bal {
	let mut max = 0;
	let mut i = 0;
	while i < 3 {
		match (lock(WHO, POLL + 10 + i), native) {
			(Some(VoteT::NativeBalance(_, a)), true) if a > max => max = a,
			(Some(VoteT::AssetBalance(_, id, a)), false) if id == w().xa && a > max => max = a,
			_ => (),
		}
		i += 1;
	}
	max
}
/// What is left of the earlier vote's contribution: nothing (as far as it was counted).
fn without(c: Counts, v: &VoteT, mult: u32) -> Counts {
	let (m, n) = ((mult as u64 * weight(v) as u64).min(u32::MAX as u64) as u32, weight(v));
	if say(v) {
		(c.0.saturating_sub(m), c.1, c.2.saturating_sub(n))
	} else {
		(c.0, c.1.saturating_sub(m), c.2)
	}
}
fn with(c: Counts, v: &VoteT, mult: u32) -> Counts {
	let (m, n) = ((mult as u64 * weight(v) as u64).min(u32::MAX as u64) as u32, weight(v));
	if say(v) {
		(c.0.saturating_add(m), c.1, c.2.saturating_add(n))
	} else {
		(c.0, c.1.saturating_add(m), c.2)
	}
}
/// The poll's counts contain the recorded vote, with its present multiplier.
fn counted(c: &Case) {
	if let Some(v) = &c.prev {
		let (m, n) = (c.multiplier as u64 * weight(v) as u64, weight(v));
		if say(v) {
			req!(c.before.0 as u64 >= m && c.before.2 >= n);
		} else {
			req!(c.before.1 as u64 >= m);
		}
	}
}
fn right_kind(m: &Method, v: &VoteT) -> bool {
	match (m, v) {
		(Method::Membership, VoteT::Standard(_)) | (Method::Rank, VoteT::Standard(_)) | (Method::NativeToken, VoteT::NativeBalance(..)) => true,
		(Method::CommunityAsset(a, min), VoteT::AssetBalance(_, b, n)) => a == b && n >= min,
		_ => false,
	}
}

fn c06(m: u8, k: u8, status: u8, prev: u8) {
	let c = case(m, status, prev, WHO, [9; 3]);
	let v = vote(k);
	let r = Pallet::<Rt>::vote(signed(WHO), MEM, POLL, dup(&v));
	let w = w();
	let ok = w.holder == WHO && status == ONGOING && w.class == w.group && right_kind(&c.method, &v) && weight(&v) > 0;
	ens!(r.is_ok() == (ok && !w.refused), "accepted exactly when all conditions hold");
	reach!(r.is_ok() || status != ONGOING || mismatch(m, k), "a vote is accepted");
	if r.is_err() {
		return;
	}
	ens!(stored_vote(POLL, MEM) == Some((dup(&v), WHO)), "the vote is recorded for the membership");
	ens!(!w.other_poll, "no other poll is touched");
	ens!(
		matches!(&frame_system::Pallet::<Rt>::state().last,
			Some(RuntimeEvent::Communities(Event::VoteCasted { who, poll_index, vote })) if *who == WHO && *poll_index == POLL && *vote == v),
		"the event names voter, poll and vote"
	);
}
fn mismatch(m: u8, k: u8) -> bool {
	m != k && !(m == RANK && k == STANDARD)
}
fn c06_origin(k: u8) {
	let _ = case(MEMBERSHIP, ONGOING, 9, WHO, [9; 3]);
	let o = RuntimeOrigin { caller: caller(k) };
	let r = if nd::any() { Pallet::<Rt>::vote(o, MEM, POLL, vote(STANDARD)) } else { Pallet::<Rt>::remove_vote(o, MEM, POLL) };
	ens!(r.is_err(), "only a signed origin can vote");
	ens!(CommunityVotes::<Rt>::table().writes == 0 && CommunityVoteLocks::<Rt>::table().writes == 0, "nothing is written");
	reach!(true, "refused");
}

fn others_kept(a: &Option<(VoteT, Acc)>, b: &Option<(VoteT, Acc)>) {
	ens!(stored_vote(POLL, MEM + 1) == *a && stored_vote(POLL + 1, MEM) == *b, "other votes are kept");
	ens!(CommunityVotes::<Rt>::table().stray_writes == 0 && !w().other_poll, "no other vote or poll is touched");
}
fn c07(m: u8, k: u8, prev: u8, voter: Acc) {
	let c = case(m, ONGOING, prev, voter, [9; 3]);
	counted(&c);
	let v = vote(k);
	let (a, b) = (stored_vote(POLL, MEM + 1), stored_vote(POLL + 1, MEM));
	let r = Pallet::<Rt>::vote(signed(WHO), MEM, POLL, dup(&v));
	reach!(r.is_ok(), "a vote is cast");
	if r.is_err() {
		return;
	}
	let mut want = c.before;
	if let Some(p) = &c.prev {
		want = without(want, p, c.multiplier);
	}
	want = with(want, &v, c.multiplier);
	let got = counts(tally());
	ens!(got.0 == want.0, "ayes");
	ens!(got.1 == want.1, "nays");
	ens!(got.2 == want.2, "support");
	ens!(stored_vote(POLL, MEM) == Some((v, WHO)), "the membership has this one vote");
	others_kept(&a, &b);
}
fn c08(m: u8, prev: u8, status: u8, voter: Acc) {
	let c = case(m, status, prev, voter, [9; 3]);
	counted(&c);
	let (a, b) = (stored_vote(POLL, MEM + 1), stored_vote(POLL + 1, MEM));
	let r = Pallet::<Rt>::remove_vote(signed(WHO), MEM, POLL);
	let w = w();
	let ok = w.holder == WHO && status == ONGOING && w.class == w.group && c.prev.is_some();
	ens!(r.is_ok() == (ok && !w.refused), "only the holder, while the poll is ongoing, if there is a vote");
	reach!(r.is_ok() || status != ONGOING || prev == 9, "a vote is removed");
	if r.is_err() {
		return;
	}
	let Some(p) = &c.prev else { return };
	let (want, got) = (without(c.before, p, c.multiplier), counts(tally()));
	ens!(got.0 == want.0, "ayes");
	ens!(got.1 == want.1, "nays");
	ens!(got.2 == want.2, "support");
	ens!(stored_vote(POLL, MEM).is_none(), "the vote is forgotten");
	ens!(lock(WHO, POLL).is_none() && lock(OLD, POLL).is_none(), "its lock is forgotten");
	others_kept(&a, &b);
}
/// The member's rank changed after the vote: the tally should go back to what it was without the vote.
fn c08_rank_changed() {
	let c = case(RANK, ONGOING, STANDARD, WHO, [9; 3]);
	let then: u8 = nd::any();
	let clean: Counts = (nd::any(), nd::any(), nd::any());
	let Some(v) = &c.prev else { return };
	req!(clean.0 <= u32::MAX - 256 && clean.1 <= u32::MAX - 256 && clean.2 <= u32::MAX - 256);
	*tally() = tally_of(with(clean, v, then as u32));
	let r = Pallet::<Rt>::remove_vote(signed(WHO), MEM, POLL);
	reach!(r.is_ok(), "a vote is removed");
	if r.is_ok() {
		ens!(counts(tally()) == clean, "removal after a rank change restores the tally");
	}
}

fn c09_approval() {
	start();
	let c: Counts = (nd::any(), nd::any(), nd::any());
	let t = tally_of(c);
	let p = VoteTally::<u32, Cid>::approval(&t, cid());
	let all = c.0 as u128 + c.1 as u128;
	let want = if all == 0 { 0 } else { ratio::floor(c.0 as u128, all, 1_000_000_000) };
	ens!(p.deconstruct() as u128 == want, "ayes as a share of all votes");
	ens!(p <= Perbill::from_percent(100), "at most all");
	ens!(VoteTally::<u32, Cid>::ayes(&t, cid()) == c.0, "ayes");
	reach!(all > u32::MAX as u128, "more votes than the counter holds");
}
fn c09_support(m: u8) {
	start();
	ledgers();
	let w = w();
	let c: Counts = (nd::any(), nd::any(), nd::any());
	let t = tally_of(c);
	let id = cid();
	w.members = nd::any();
	w.ranks = nd::any();
	let mt = method(m);
	if let Method::CommunityAsset(a, _) = &mt {
		req!(*a == w.xa);
	}
	CommunityDecisionMethod::<Rt>::table().track(id, Some(mt));
	let p = VoteTally::<u32, Cid>::support(&t, id);
	let cap = |b: Bal| if b > u32::MAX as Bal { u32::MAX } else { b as u32 };
	let of = match m {
		MEMBERSHIP => w.members,
		RANK => w.ranks,
		NATIVE => cap(w.issuance),
		_ => cap(w.issuance_a),
	};
	ens!(of == 0 || p.deconstruct() as u128 == ratio::floor(c.2 as u128, of as u128, 1_000_000_000), "bare ayes as a share");
	ens!(p <= Perbill::from_percent(100), "at most all");
	ens!(m == NATIVE || m == ASSET || w.total_of == id, "the total is that community's");
	reach!(of != 0, "a share");
}
fn c09_new() {
	start();
	let t = <Tally<Rt> as VoteTally<u32, Cid>>::new(cid());
	ens!(counts(&t) == (0, 0, 0), "a new tally is empty");
	reach!(true, "created");
}

/// Freezes of the followed account after the voter's locks changed: `max` of the other locks and `add`.
fn frozen_is(native: Bal, asset: Bal) {
	ens!(w().frozen == native, "frozen native tokens");
	ens!(w().frozen_a == asset, "frozen assets");
	ens!(!w().wrong_reason, "frozen for voting");
}
fn c10_cast(m: u8, k: u8, prev: u8, locks: [u8; 3]) {
	let c = case(m, ONGOING, prev, WHO, locks);
	let v = vote(k);
	let r = Pallet::<Rt>::vote(signed(WHO), MEM, POLL, dup(&v));
	reach!(r.is_ok() && w().x == WHO, "a vote is cast");
	if r.is_err() {
		return;
	}
	let (mut n, mut a) = (c.frozen, c.frozen_a);
	if w().x == WHO {
		match &c.prev {
			Some(VoteT::NativeBalance(..)) => n = largest(true),
			Some(VoteT::AssetBalance(_, id, _)) if *id == w().xa => a = largest(false),
			_ => (),
		}
		match &v {
			VoteT::NativeBalance(_, x) => n = n.max(*x),
			VoteT::AssetBalance(_, id, x) if *id == w().xa => a = a.max(*x),
			_ => (),
		}
	}
	frozen_is(n, a);
	ens!(lock(WHO, POLL) == if weightless(&v) { None } else { Some(v) }, "the lock is the vote");
	ens!(CommunityVoteLocks::<Rt>::table().stray_writes == 0, "no other lock is touched");
}
fn released(c: &Case, voter: Acc, v: &VoteT) {
	let (mut n, mut a) = (c.frozen, c.frozen_a);
	if w().x == voter {
		match v {
			VoteT::NativeBalance(..) => n = if voter == WHO { largest(true) } else { 0 },
			VoteT::AssetBalance(_, id, _) if *id == w().xa => a = if voter == WHO { largest(false) } else { 0 },
			_ => (),
		}
	}
	frozen_is(n, a);
}
fn locks_now() -> [Option<VoteT>; 3] {
	[lock(WHO, POLL + 10), lock(WHO, POLL + 11), lock(WHO, POLL + 12)]
}
fn locks_kept(l: &[Option<VoteT>; 3]) {
	ens!(lock(WHO, POLL + 10) == l[0] && lock(WHO, POLL + 11) == l[1] && lock(WHO, POLL + 12) == l[2], "other locks are kept");
	ens!(CommunityVoteLocks::<Rt>::table().stray_writes == 0, "no other lock is touched");
}
fn c10_remove(m: u8, prev: u8, voter: Acc, locks: [u8; 3]) {
	let c = case(m, ONGOING, prev, voter, locks);
	let l = locks_now();
	let r = Pallet::<Rt>::remove_vote(signed(WHO), MEM, POLL);
	reach!(r.is_ok() && w().x == voter, "a vote is removed");
	if r.is_err() {
		return;
	}
	let Some(v) = &c.prev else { return };
	released(&c, voter, v);
	locks_kept(&l);
}
fn c10_unlock(prev: u8, locks: [u8; 3]) {
	let c = case(MEMBERSHIP, COMPLETED, prev, WHO, locks);
	let l = locks_now();
	let r = Pallet::<Rt>::unlock(signed(WHO), POLL);
	reach!(r.is_ok() && w().x == WHO, "a lock is released");
	if r.is_err() {
		return;
	}
	let Some(v) = &c.prev else { return };
	released(&c, WHO, v);
	locks_kept(&l);
}
/// The account voted on this poll with two memberships; removing one vote must leave the other's tokens frozen.
fn c10_two_memberships() {
	let _ = case(NATIVE, ONGOING, NATIVE, WHO, [9; 3]);
	let other = vote(NATIVE);
	CommunityVotes::<Rt>::table().e[1].val = Some((dup(&other), WHO));
	w().x = WHO;
	let r = Pallet::<Rt>::remove_vote(signed(WHO), MEM, POLL);
	reach!(r.is_ok(), "a vote is removed");
	if r.is_ok() {
		ens!(w().frozen >= amount(&other), "the other membership's vote stays frozen");
	}
}
fn c11(prev: u8, status: u8, locks: [u8; 3]) {
	let c = case(MEMBERSHIP, status, prev, WHO, locks);
	let l = locks_now();
	let (a, b) = (stored_vote(POLL, MEM + 1), stored_vote(POLL + 1, MEM));
	// somebody else's lock on the same poll
	let foreign = vote(NATIVE);
	CommunityVoteLocks::<Rt>::table().track((OLD, POLL), Some(dup(&foreign)));
	let r = Pallet::<Rt>::unlock(signed(WHO), POLL);
	let ok = status != ONGOING && c.prev.is_some();
	ens!(r.is_ok() == (ok && !w().refused), "only after the poll has ended, only with a lock");
	reach!(r.is_ok() || status == ONGOING || prev == 9, "a lock is released");
	ens!(!w().other_poll, "the poll asked about is the one to unlock");
	if r.is_err() {
		return;
	}
	ens!(lock(WHO, POLL).is_none(), "the lock is gone");
	ens!(lock(OLD, POLL) == Some(foreign), "nobody else's lock is released");
	locks_kept(&l);
	others_kept(&a, &b);
}
fn c11_origin(k: u8) {
	let _ = case(MEMBERSHIP, COMPLETED, NATIVE, WHO, [9; 3]);
	let r = Pallet::<Rt>::unlock(RuntimeOrigin { caller: caller(k) }, POLL);
	ens!(r.is_err() && CommunityVoteLocks::<Rt>::table().writes == 0, "only a signed origin can unlock");
	reach!(true, "refused");
}
const N: u8 = NATIVE;
const A: u8 = ASSET;
const FREE: [u8; 3] = [9; 3];

nd::harnesses! {
	c06_membership_standard => c06(MEMBERSHIP, STANDARD, ONGOING, 9);
	c06_membership_native => c06(MEMBERSHIP, NATIVE, ONGOING, 9);
	c06_membership_asset => c06(MEMBERSHIP, ASSET, ONGOING, 9);
	c06_native_standard => c06(NATIVE, STANDARD, ONGOING, 9);
	c06_native_native => c06(NATIVE, NATIVE, ONGOING, 9);
	c06_native_asset => c06(NATIVE, ASSET, ONGOING, 9);
	c06_asset_standard => c06(ASSET, STANDARD, ONGOING, 9);
	c06_asset_native => c06(ASSET, NATIVE, ONGOING, 9);
	c06_asset_asset => c06(ASSET, ASSET, ONGOING, 9);
	c06_rank_standard => c06(RANK, STANDARD, ONGOING, 9);
	c06_rank_native => c06(RANK, NATIVE, ONGOING, 9);
	c06_rank_asset => c06(RANK, ASSET, ONGOING, 9);
	c06_unknown_poll => c06(MEMBERSHIP, STANDARD, UNKNOWN, 9);
	c06_completed_poll => c06(NATIVE, NATIVE, COMPLETED, 9);
	c06_again_membership => c06(MEMBERSHIP, STANDARD, ONGOING, STANDARD);
	c06_again_native => c06(NATIVE, NATIVE, ONGOING, NATIVE);
	c06_again_asset => c06(ASSET, ASSET, ONGOING, ASSET);
	c06_again_completed => c06(NATIVE, NATIVE, COMPLETED, NATIVE);
	c06_root => c06_origin(0);
	c06_none => c06_origin(1);
	c06_community => c06_origin(3);
	c07_membership => c07(MEMBERSHIP, STANDARD, 9, WHO);
	c07_rank => c07(RANK, STANDARD, 9, WHO);
	c07_native => c07(NATIVE, NATIVE, 9, WHO);
	c07_asset => c07(ASSET, ASSET, 9, WHO);
	c07_again_membership => c07(MEMBERSHIP, STANDARD, STANDARD, WHO);
	c07_again_rank => c07(RANK, STANDARD, STANDARD, WHO);
	c07_again_native => c07(NATIVE, NATIVE, NATIVE, WHO);
	c07_again_asset => c07(ASSET, ASSET, ASSET, WHO);
	c07_again_by_new_holder => c07(NATIVE, NATIVE, NATIVE, OLD);
	c07_again_other_kind => c07(NATIVE, NATIVE, STANDARD, WHO);
	c08_membership => c08(MEMBERSHIP, STANDARD, ONGOING, WHO);
	c08_rank => c08(RANK, STANDARD, ONGOING, WHO);
	c08_native => c08(NATIVE, NATIVE, ONGOING, WHO);
	c08_asset => c08(ASSET, ASSET, ONGOING, WHO);
	c08_of_old_holder => c08(NATIVE, NATIVE, ONGOING, OLD);
	c08_nothing => c08(MEMBERSHIP, 9, ONGOING, WHO);
	c08_unknown_poll => c08(MEMBERSHIP, STANDARD, UNKNOWN, WHO);
	c08_completed_poll => c08(NATIVE, NATIVE, COMPLETED, WHO);
	c08_after_rank_change => c08_rank_changed();
	c09_approvals => c09_approval();
	c09_support_members => c09_support(MEMBERSHIP);
	c09_support_ranks => c09_support(RANK);
	c09_support_native => c09_support(NATIVE);
	c09_support_asset => c09_support(ASSET);
	c09_empty => c09_new();
	c10_cast_standard => c10_cast(MEMBERSHIP, STANDARD, 9, [N, A, 9]);
	c10_cast_native => c10_cast(NATIVE, NATIVE, 9, [N, A, 9]);
	c10_cast_asset => c10_cast(ASSET, ASSET, 9, [N, A, 9]);
	c10_again_native => c10_cast(NATIVE, NATIVE, NATIVE, FREE);
	c10_again_native_nan => c10_cast(NATIVE, NATIVE, NATIVE, [N, A, N]);
	c10_again_asset => c10_cast(ASSET, ASSET, ASSET, FREE);
	c10_again_asset_ana => c10_cast(ASSET, ASSET, ASSET, [A, N, A]);
	c10_remove_native => c10_remove(NATIVE, NATIVE, WHO, FREE);
	c10_remove_native_nan => c10_remove(NATIVE, NATIVE, WHO, [N, A, N]);
	c10_remove_asset => c10_remove(ASSET, ASSET, WHO, FREE);
	c10_remove_asset_ana => c10_remove(ASSET, ASSET, WHO, [A, N, A]);
	c10_remove_old_holder => c10_remove(NATIVE, NATIVE, OLD, [N, 9, 9]);
	c10_remove_standard => c10_remove(MEMBERSHIP, STANDARD, WHO, [N, A, 9]);
	c10_unlock_native => c10_unlock(NATIVE, FREE);
	c10_unlock_native_nan => c10_unlock(NATIVE, [N, A, N]);
	c10_unlock_native_aaa => c10_unlock(NATIVE, [A, A, A]);
	c10_unlock_asset => c10_unlock(ASSET, FREE);
	c10_unlock_asset_ana => c10_unlock(ASSET, [A, N, A]);
	c10_unlock_asset_aan => c10_unlock(ASSET, [A, A, N]);
	c10_two_members => c10_two_memberships();
	c11_native => c11(NATIVE, COMPLETED, [N, A, 9]);
	c11_asset => c11(ASSET, COMPLETED, [N, A, 9]);
	c11_unknown_poll => c11(NATIVE, UNKNOWN, FREE);
	c11_ongoing => c11(NATIVE, ONGOING, FREE);
	c11_no_lock => c11(9, COMPLETED, [N, 9, 9]);
	c11_root => c11_origin(0);
	c11_none => c11_origin(1);
	c11_community => c11_origin(3);
}
