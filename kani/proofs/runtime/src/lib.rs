//! Contracts of the runtime's own logic (R01..R14), discharged on the runtime crate itself.
#![allow(static_mut_refs)]
#![cfg_attr(kani, feature(allocator_api))]
use frame_support::{
	traits::{EnsureOrigin, EnsureOriginWithArg, Get, PrivilegeCmp},
	weights::{Weight, WeightToFee as _},
};
use kreivo_runtime::{configuration::system_support::*, payments::KreivoFeeHandler, *};
use nd::{ens, reach, req};
use pallet_payments::types::FeeHandler;
use parity_scale_codec::Decode;
use sp_runtime::traits::StaticLookup;
use world::*;

pub mod calls;
pub mod places;
pub mod world;

// --- R01: payment fees ---------------------------------------------------------------------------

/// `amount * percent / 100` rounded down, from its definition.
fn floor_of(percent: u128, amount: u128) -> u128 {
	sp_runtime::per_things::scale::of(percent, amount, 100).floor
}
fn asset() -> FungibleAssetLocation {
	let n: u32 = nd::any();
	let p: u8 = nd::any();
	let b = n.to_le_bytes();
	let buf = [1, nd::any(), nd::any(), p, b[0], b[1], b[2], b[3]];
	let r = if nd::any() {
		core::mem::ManuallyDrop::new(FungibleAssetLocation::decode(&mut &buf[..]))
	} else {
		core::mem::ManuallyDrop::new(Ok(FungibleAssetLocation::from(n)))
	};
	match &*r {
		Ok(a) => *a,
		_ => FungibleAssetLocation::from(n),
	}
}
/// The two ends of a payment: a community's account, or any account that is none.
fn end(community: bool) -> [u8; 32] {
	if community {
		return community_bytes(nd::any());
	}
	let a = account();
	req!(community_of(&a).is_none());
	a
}
fn r01(cs: bool, cb: bool) {
	world::reset();
	world::inexact();
	let treasury = raw(&TreasuryAccount::get());
	let (s, b) = (end(cs), end(cb));
	let a = asset();
	let min: Balance = nd::any();
	let amount: Balance = nd::any();
	Assets::min_balance().0 = Some((a, min));
	let fees = KreivoFeeHandler::apply_fees(&a, &Acc::from(s), &Acc::from(b), &amount, None);
	let expect = |percent: u128| {
		let f = floor_of(percent, amount);
		if f > min {
			f
		} else {
			min
		}
	};
	ens!(fees.sender_pays.len() == if cs { 0 } else { 1 }, "one fee for a paying person, none for a community");
	ens!(fees.beneficiary_pays.len() == if cb { 0 } else { 1 }, "one fee for a receiving person, none for a community");
	if !cs {
		let (to, fee, always) = &fees.sender_pays[0];
		ens!(same(&raw(to), &treasury), "the payer's fee goes to the treasury");
		ens!(*fee == expect(1), "the payer is charged one percent, at least the minimum");
		ens!(*always, "the payer's fee is due on disputes too");
	}
	if !cb {
		let (to, fee, always) = &fees.beneficiary_pays[0];
		ens!(same(&raw(to), &treasury), "the beneficiary's fee goes to the treasury");
		ens!(*fee == expect(3), "the beneficiary is charged three percent, at least the minimum");
		ens!(*always, "the beneficiary's fee is due on disputes too");
	}
	ens!(same(&treasury, &derived(b"py/trsry", 0)), "the treasury is the treasury system's account");
	reach!(amount == u128::MAX, "the largest amount");
	core::mem::forget(fees);
}

// --- R02: payment ids ----------------------------------------------------------------------------

fn r02() {
	world::reset();
	let block: u32 = nd::any();
	let idx: Option<u32> = nd::any();
	let (s, b) = (account(), account());
	req!(!matches!(idx, Some(i) if i >= 65536));
	let st = System::state();
	st.block = block as u128;
	st.extrinsic_index = idx;
	let id = <virto_common::PaymentId as pallet_payments::PaymentId<Runtime>>::next(&Acc::from(s), &Acc::from(b));
	ens!(id.is_some() == idx.is_some(), "an id is issued exactly inside an extrinsic");
	if let (Some(id), Some(i)) = (id, idx) {
		let n = id.to_number().to_le_bytes();
		ens!(id.block_number() == block && u32::from_le_bytes([n[4], n[5], n[6], n[7]]) == block, "the current block");
		ens!(id.extrinsic_index() == i && u16::from_le_bytes([n[2], n[3]]) as u32 == i, "the executing extrinsic");
		ens!(n[0] == b[0] && n[1] == b[1], "the first two bytes of the beneficiary");
		reach!(i == 65535, "the last index");
	}
	reach!(id.is_none(), "no id outside an extrinsic");
}

// --- R04: privilege ------------------------------------------------------------------------------

fn same_who(a: &Who, b: &Who) -> bool {
	match (a, b) {
		(Who::Root, Who::Root) | (Who::None, Who::None) => true,
		(Who::Signed(a), Who::Signed(b)) => same(a, b),
		(Who::Custom(a), Who::Custom(b)) => a == b,
		(Who::Xcm(k, a), Who::Xcm(l, b)) => k == l && a == b,
		(Who::Cumulus(a), Who::Cumulus(b)) => a == b,
		_ => false,
	}
}
fn r04(left: u8) {
	use core::cmp::Ordering::*;
	world::reset();
	let l = who(left);
	let k = nd::below(KINDS - 1);
	let r = who(k);
	let c = EqualOrGreatestRootCmp::cmp_privilege(&caller(l), &caller(r));
	ens!((c == Some(Equal)) == same_who(&l, &r), "equal exactly when the same");
	ens!(c != Some(Less), "nothing ranks below");
	ens!(c != Some(Greater) || left == 0, "only root ranks above");
	ens!(left != 0 || k == 0 || c == Some(Greater), "root ranks above everything else");
	ens!(c.is_none() || left == 0 || same_who(&l, &r), "nothing is said about other pairs");
	reach!(c == Some(Equal), "equal");
	reach!(c == None || left == 0, "not comparable");
}
fn r04_community(left: bool) {
	use core::cmp::Ordering::*;
	world::reset();
	let (i, j): (u16, u16) = (nd::any(), nd::any());
	let p: u32 = nd::any();
	let t: u32 = nd::any();
	let (a, b): (bool, bool) = (nd::any(), nd::any());
	let mk = |id: u16, m: bool, n: u32| {
		let mut o = CommunityOrigin::new(id);
		if m {
			o.with_subset(pallet_communities::origin::Subset::Members { count: n });
		}
		OriginCaller::from(o)
	};
	let com = mk(i, a, p);
	let c = EqualOrGreatestRootCmp::cmp_privilege(&com, &mk(j, b, t));
	let eq = i == j && a == b && (!a || p == t);
	ens!((c == Some(Equal)) == eq && (eq || c.is_none()), "two communities: equal when the same, else not comparable");
	let k = nd::below(KINDS - 1);
	let o = caller(who(k));
	let c = if left { EqualOrGreatestRootCmp::cmp_privilege(&com, &o) } else { EqualOrGreatestRootCmp::cmp_privilege(&o, &com) };
	ens!(c == if !left && k == 0 { Some(Greater) } else { None }, "root alone ranks above a community");
	reach!(eq && a, "the same part of the same community");
	reach!(k == 0, "root");
}

// --- R05: sign-in challenges ---------------------------------------------------------------------

fn r05() {
	use fc_traits_authn::Challenger;
	world::reset();
	let now: u32 = nd::any();
	let cx: u32 = if nd::any() { nd::any() } else { now.wrapping_sub(2).wrapping_add(nd::below(6) as u32) };
	let hash: [u8; 32] = bytes::<32>();
	let other: [u8; 32] = bytes::<32>();
	let st = System::state();
	st.block = now as u128;
	// past blocks have a hash, others none
	let past = cx < now;
	if past {
		st.block_hashes[0] = (cx as u128, hash);
	}
	let good: bool = nd::any();
	let zero: bool = nd::any();
	let mut c = [0u8; 33];
	let mut i = 0;
	while i < 32 {
		c[i] = if zero {
			0
		} else if good {
			hash[i]
		} else {
			other[i]
		};
		i += 1;
	}
	let len = if nd::any() { 32 } else { nd::below(34) as usize };
	let ok = UnincludedBlockHashChallenger::check_challenge(&cx, &c[..len]).is_some();
	let mut m = len == 32;
	i = 0;
	while i < 32 {
		m &= c[i] == hash[i];
		i += 1;
	}
	ens!(!ok || past, "the named block is past and has a hash");
	ens!(!ok || now.wrapping_sub(cx) <= 3, "the named block is at most three blocks old");
	ens!(!ok || m, "the challenge is the hash of the named block");
	ens!(ok || !(past && now - cx <= 3 && m), "a fresh and right challenge is accepted");
	reach!(ok && now - cx == 3, "three blocks old");
	reach!(!ok && past && m, "a right but old challenge");
}

// --- R06: addresses ------------------------------------------------------------------------------

type Address = <CommunityLookup as StaticLookup>::Source;
fn is(a: &Result<Acc, sp_runtime::traits::LookupError>, b: &[u8; 32]) -> bool {
	matches!(a, Ok(x) if same(&raw(x), b))
}
fn r06_id() {
	world::reset();
	let a = account();
	ens!(is(&CommunityLookup::lookup(Address::Id(Acc::from(a))), &a), "an account's address is that account");
	let back = CommunityLookup::unlookup(Acc::from(a));
	ens!(is(&CommunityLookup::lookup(back), &a), "turning an account into an address and back gives the account");
	let i: u16 = nd::any();
	ens!(is(&CommunityLookup::lookup(Address::Index(i)), &community_bytes(i)), "an index is the community's account");
	reach!(i == u16::MAX, "the last community");
}
fn r06_other(k: u8) {
	world::reset();
	let a = match k {
		0 => Address::Address32(account()),
		1 => Address::Address20(bytes::<20>()),
		_ => Address::Raw(vec![nd::any(), nd::any()]),
	};
	ens!(CommunityLookup::lookup(a).is_err(), "any other address is refused");
	reach!(true, "reached");
}
fn r06_signup(kind: u8) {
	world::reset();
	let w = who(kind);
	let user = bytes::<32>();
	let r = <CommunitiesDontDeposit as EnsureOriginWithArg<RuntimeOrigin, _>>::try_origin(origin(w), &user);
	let free = matches!(r, Ok(None));
	ens!(free == matches!(w, Who::Community(..)) && (free || r.is_err()), "free of deposit for a community origin only");
	let r = <<Runtime as pallet_pass::Config>::RegisterOrigin as EnsureOriginWithArg<RuntimeOrigin, _>>::try_origin(origin(w), &user);
	match w {
		Who::Root | Who::Community(..) => ens!(matches!(r, Ok(None)), "root and communities sign up free of deposit"),
		Who::Signed(_) => ens!(matches!(r, Ok(Some(_))), "an account signs up with a deposit"),
		_ => ens!(r.is_err(), "nobody else signs up"),
	}
	reach!(true, "reached");
}

// --- R11: tracks ---------------------------------------------------------------------------------

type Tracks = <Runtime as pallet_referenda::Config<pallet_referenda::Instance1>>::Tracks;
fn track_for(w: Who) -> Result<u16, ()> {
	<Tracks as pallet_referenda::TracksInfo<Balance, BlockNumber>>::track_for(&caller(w))
}
fn r11_origins(kind: u8) {
	use kreivo_runtime::governance::pallet_custom_origins::*;
	world::reset();
	let w = who(kind);
	let t = track_for(w);
	let expect = match w {
		Who::Root => Ok(0),
		Who::Custom(1) => Ok(1),
		Who::Custom(2) => Ok(2),
		Who::Custom(_) => Ok(3),
		_ => Err(()),
	};
	ens!(t == expect, "each origin has its own track, others none");
	let is = |k: u8| matches!(w, Who::Custom(c) if c == k);
	ens!(CreateMemberships::try_origin(origin(w)).is_ok() == is(0), "only the membership-creation origin passes its check");
	ens!(ReferendumCanceller::try_origin(origin(w)).is_ok() == is(1), "only the canceller passes its check");
	ens!(ReferendumKiller::try_origin(origin(w)).is_ok() == is(2), "only the killer passes its check");
	reach!(true, "reached");
}
fn r11_list() {
	world::reset();
	let mut n: u32 = 0;
	let mut last: Option<u16> = None;
	let (mut increasing, mut known) = (true, true);
	let mut it = <Tracks as pallet_referenda::TracksInfo<Balance, BlockNumber>>::tracks();
	while let Some(t) = it.next() {
		increasing &= !matches!(last, Some(l) if l >= t.id);
		known &= t.id < 4;
		last = Some(t.id);
		n += 1;
	}
	ens!(increasing, "track ids are strictly increasing");
	ens!(n == 4 && known, "the listed tracks are exactly those with an origin");
	reach!(true, "reached");
}

// --- R13: community referenda --------------------------------------------------------------------

fn r13_update(kind: u8) {
	world::reset();
	let w = who(kind);
	let (track, asked): (u16, u16) = (nd::any(), nd::any());
	let has: bool = nd::any();
	let c = caller(w);
	CommunityTracks::known().0 = if has { Some((c.clone(), track)) } else { None };
	type Update = <Runtime as pallet_referenda_tracks::Config<pallet_referenda_tracks::Instance2>>::UpdateOrigin;
	let r = <Update as EnsureOriginWithArg<RuntimeOrigin, u16>>::try_origin(c.into(), &asked);
	ens!(r.is_ok() == (has && track == asked), "settings are changed only by the origin the track belongs to");
	reach!(r.is_ok(), "allowed");
	reach!(has && r.is_err(), "another track");
}
fn r13_submit(kind: u8) {
	world::reset();
	let w = who(kind);
	let track: u16 = nd::any();
	let has: bool = nd::any();
	let for_origin = caller(Who::Community(nd::any(), 0));
	CommunityTracks::known().0 = if has { Some((for_origin.clone(), track)) } else { None };
	let member: bool = nd::any();
	if let Who::Signed(a) = w {
		CommunityMemberships::membership().0 = Some((track, Acc::from(a), member));
	}
	type Submit = <Runtime as pallet_referenda::Config<pallet_referenda::Instance2>>::SubmitOrigin;
	let r = <Submit as EnsureOriginWithArg<RuntimeOrigin, OriginCaller>>::try_origin(origin(w), &for_origin);
	match w {
		Who::Root => ens!(matches!(&r, Ok(a) if same(&raw(a), &derived(b"py/trsry", 0))), "root may, on the treasury's account"),
		Who::Signed(s) => {
			ens!(r.is_ok() == (has && member), "a signed account may exactly as a member of the track's community");
			ens!(!matches!(&r, Ok(a) if !same(&raw(a), &s)), "on its own account");
		}
		_ => ens!(r.is_err(), "nobody else may"),
	}
	reach!(kind > 0 && kind != 2 || r.is_ok(), "decided");
	reach!(r.is_err() || kind == 0, "refused");
}

// --- R14: fees and deposits ----------------------------------------------------------------------

fn cents() -> u128 {
	runtime_constants::currency::CENTS
}
fn fee(t: u64, p: u64) -> u128 {
	WeightToFee::weight_to_fee(&Weight::from_parts(t, p))
}
fn r14_max() {
	world::reset();
	world::inexact();
	let (t, p): (u64, u64) = (nd::any(), nd::any());
	let (f, ft, fp) = (fee(t, p), fee(t, 0), fee(0, p));
	ens!(f == if ft > fp { ft } else { fp }, "the fee is the larger of the time and proof prices");
	reach!(ft > fp && fp > 0, "time is scarcer");
	reach!(ft < fp && ft > 0, "proof is scarcer");
}
/// One price against its rate: a cent per `per` units, the rate taken to nine decimals and the result to the nearest unit.
fn r14_rate(time: bool) {
	world::reset();
	world::inexact();
	let x: u64 = nd::any();
	let (f, per): (u128, u128) =
		if time { (fee(x, 0), 100 * ExtrinsicBaseWeight::get().ref_time() as u128) } else { (fee(0, x), 10_000) };
	let (whole, nano, x) = (cents() / per, cents() % per * 1_000_000_000 / per, x as u128);
	let scaled = sp_runtime::per_things::scale::of(nano, x, 1_000_000_000);
	let part = scaled.floor + scaled.up as u128;
	// what rounding to nearest means at zero
	#[cfg(kani)]
	nd::assume((part == 0) == (nano == 0 || x <= 500_000_000 / nano));
	let price = part + whole * x;
	ens!(f == price, "the price is the rate times the weight");
	ens!(f > 0 || x * cents() <= per, "zero only when priced below the smallest unit");
	reach!(x == u64::MAX as u128 && f > 0, "the largest weight");
}
fn r14_monotone(time: bool) {
	world::reset();
	world::inexact();
	let (x, y): (u64, u64) = (nd::any(), nd::any());
	req!(x <= y);
	let (a, b) = if time { (fee(x, 0), fee(y, 0)) } else { (fee(0, x), fee(0, y)) };
	ens!(a <= b, "a larger weight never costs less");
	reach!(x < y && a < b, "it costs more");
}
fn r14_deposit() {
	world::reset();
	let (i, b): (u32, u32) = (nd::any(), nd::any());
	let d = deposit(i, b);
	let relay = runtime_constants::currency::deposit(i, b);
	ens!(d == relay / 100, "one hundredth of the relay chain's deposit");
	reach!(i == u32::MAX && b == u32::MAX, "the largest storage");
}
fn r14_relay() {
	let (i, b): (u32, u32) = (nd::any(), nd::any());
	let relay = runtime_constants::currency::deposit(i, b);
	let (items, bytes) = (i as u128 * 2000 * cents(), b as u128 * 100 * runtime_constants::currency::MILLICENTS);
	ens!(relay == items + bytes, "proportional to items and bytes");
	reach!(i == u32::MAX && b == u32::MAX, "the largest storage");
}

nd::harnesses! {
	#[kani::unwind(34)]
	#[kani::stub(std::vec::Vec::push, world::push)]
	r01_people => r01(false, false);
	#[kani::unwind(34)]
	#[kani::stub(std::vec::Vec::push, world::push)]
	r01_community_pays => r01(true, false);
	#[kani::unwind(34)]
	#[kani::stub(std::vec::Vec::push, world::push)]
	r01_community_paid => r01(false, true);
	#[kani::unwind(34)]
	#[kani::stub(std::vec::Vec::push, world::push)]
	r01_communities => r01(true, true);
	#[kani::unwind(34)]
	r02_next => r02();
	#[kani::unwind(34)]
	r04_root => r04(0);
	#[kani::unwind(34)]
	r04_none => r04(1);
	#[kani::unwind(34)]
	r04_signed => r04(2);
	#[kani::unwind(34)]
	r04_custom => r04(3);
	#[kani::unwind(34)]
	r04_xcm => r04(4);
	#[kani::unwind(34)]
	r04_cumulus => r04(5);
	#[kani::unwind(34)]
	r04_community_left => r04_community(true);
	#[kani::unwind(34)]
	r04_community_right => r04_community(false);
	#[kani::unwind(35)]
	r05_challenge => r05();
	#[kani::unwind(34)]
	r06_resolve => r06_id();
	#[kani::unwind(34)]
	r06_address32 => r06_other(0);
	#[kani::unwind(34)]
	r06_address20 => r06_other(1);
	#[kani::unwind(34)]
	r06_raw => r06_other(2);
	#[kani::unwind(34)]
	r06_signup_root => r06_signup(0);
	#[kani::unwind(34)]
	r06_signup_none => r06_signup(1);
	#[kani::unwind(34)]
	r06_signup_signed => r06_signup(2);
	#[kani::unwind(34)]
	r06_signup_custom => r06_signup(3);
	#[kani::unwind(34)]
	r06_signup_xcm => r06_signup(4);
	#[kani::unwind(34)]
	r06_signup_cumulus => r06_signup(5);
	#[kani::unwind(34)]
	r06_signup_community => r06_signup(6);
	#[kani::unwind(34)]
	r11_root => r11_origins(0);
	#[kani::unwind(34)]
	r11_none => r11_origins(1);
	#[kani::unwind(34)]
	r11_signed => r11_origins(2);
	#[kani::unwind(34)]
	r11_custom => r11_origins(3);
	#[kani::unwind(34)]
	r11_xcm => r11_origins(4);
	#[kani::unwind(34)]
	r11_cumulus => r11_origins(5);
	#[kani::unwind(34)]
	r11_community => r11_origins(6);
	#[kani::unwind(34)]
	r11_tracks => r11_list();
	#[kani::unwind(34)]
	r13_update_root => r13_update(0);
	#[kani::unwind(34)]
	r13_update_signed => r13_update(2);
	#[kani::unwind(34)]
	r13_update_community => r13_update(6);
	#[kani::unwind(34)]
	r13_update_custom => r13_update(3);
	#[kani::unwind(34)]
	r13_submit_root => r13_submit(0);
	#[kani::unwind(34)]
	r13_submit_none => r13_submit(1);
	#[kani::unwind(34)]
	r13_submit_signed => r13_submit(2);
	#[kani::unwind(34)]
	r13_submit_custom => r13_submit(3);
	#[kani::unwind(34)]
	r13_submit_xcm => r13_submit(4);
	#[kani::unwind(34)]
	r13_submit_cumulus => r13_submit(5);
	#[kani::unwind(34)]
	r13_submit_community => r13_submit(6);
	#[kani::unwind(8)]
	r14_larger => r14_max();
	#[kani::unwind(8)]
	r14_rate_time => r14_rate(true);
	#[kani::unwind(8)]
	r14_rate_proof => r14_rate(false);
	#[kani::unwind(8)]
	r14_monotone_time => r14_monotone(true);
	#[kani::unwind(8)]
	r14_monotone_proof => r14_monotone(false);
	#[kani::unwind(8)]
	r14_deposits => r14_deposit();
	#[kani::unwind(34)]
	r14_relay_deposits => r14_relay();
}
