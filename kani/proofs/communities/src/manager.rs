//! Contracts of full registration (M01) and membership creation (M02).
use crate::{method, world::*};
use frame_support::BoundedVec;
use nd::{ens, reach, req};
use pallet_communities::{CommunityDecisionMethod, CommunityIdFor, Info, Origin};
use pallet_communities_manager::{Event, Pallet};
use pallet_referenda::{Curve, TrackInfo};
use sp_runtime::{traits::ConstU32, Perbill};

const REGISTRAR: u8 = 2;
const MINTER: u8 = 3;

static mut NAME: [u8; 25] = [0; 25];
#[cfg(kani)]
static mut TEXT: Option<bool> = None;
/// Contract of `core::str::from_utf8`: the same bytes are text or not, always with the same answer.
#[cfg(kani)]
fn from_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
	let same = v.as_ptr() == unsafe { NAME.as_ptr() };
	nd::model_gap!(same, "text check of something else than the name");
	let ok = match unsafe { TEXT } {
		Some(b) => b,
		None => nd::any(),
	};
	unsafe { TEXT = Some(ok) };
	if ok {
		Ok(unsafe { core::str::from_utf8_unchecked(v) })
	} else {
		Err(unsafe { core::mem::zeroed() })
	}
}

fn caller_of(k: u8) -> OriginCaller {
	match k {
		9 => OriginCaller::Other(OtherOrigin(nd::id32(3))),
		k => caller(k),
	}
}
fn track() -> TrackInfo<Bal, u32> {
	let c = || Curve::LinearDecreasing {
		length: Perbill::from_percent(100),
		floor: Perbill::from_percent(7),
		ceil: Perbill::from_percent(93),
	};
	TrackInfo {
		name: [b'x'; 25],
		max_deciding: nd::any(),
		decision_deposit: nd::any(),
		prepare_period: nd::any(),
		decision_period: nd::any(),
		confirm_period: nd::any(),
		min_enactment_period: nd::any(),
		min_approval: c(),
		min_support: c(),
	}
}

fn m01(by: u8, m: u8, own_track: bool) {
	start();
	ledgers();
	let id = cid();
	let admin = acc();
	let admin_origin = OriginCaller::system(frame_support::dispatch::RawOrigin::Signed(admin));
	let i0 = info();
	let a0 = if nd::any() { Some(cid()) } else { None };
	Info::<Rt>::table().track(id, dup(&i0));
	CommunityIdFor::<Rt>::table().track(dup(&admin_origin), a0);
	CommunityDecisionMethod::<Rt>::table().track(id, None);
	w().deposit = if nd::any() { Some((nd::any::<Bal>(), acc(), acc())) } else { None };
	let len = nd::below(26) as usize;
	let mut i = 0;
	while i < 25 {
		unsafe { NAME[i] = nd::any() };
		i += 1;
	}
	let name: &'static [u8] = unsafe { &NAME[..len] };
	let text = core::str::from_utf8(name).is_ok();
	let o = caller_of(by);
	let entitled = o == OriginCaller::Other(OtherOrigin(2));
	let wanted = if m < 4 { Some(method(m)) } else { None };
	let info0 = if own_track { Some(track()) } else { None };
	let r = Pallet::<Rt>::register(
		RuntimeOrigin { caller: dup(&o) },
		id,
		BoundedVec::<u8, ConstU32<25>>::from_static(name),
		admin,
		dup(&wanted),
		dup(&info0),
	);
	let ok = entitled && text && i0.is_none() && a0.is_none();
	ens!(r.is_ok() == (ok && !w().refused), "succeeds exactly when every part can be set up");
	reach!(by != 9 || r.is_ok(), "registration succeeds");
	if r.is_err() {
		return;
	}
	let own = account_of(id);
	ens!(active(&Info::<Rt>::table().peek(&id)), "the community is active");
	ens!(CommunityIdFor::<Rt>::table().peek(&admin_origin) == Some(id), "the named first admin controls it");
	ens!(CommunityDecisionMethod::<Rt>::table().peek(&id) == wanted, "the requested decision method applies");
	ens!(w().collections == 1 && w().collection == (id, own, own), "one collection of that id, owned and run by the community's account");
	ens!(w().tracks == 1 && w().track == id, "one track of that id");
	ens!(w().track_origin == Some(OriginCaller::Communities(Origin::<Rt>::new(id))), "the track is for the community's own origin");
	if let Some(t) = &w().track_info {
		if own_track {
			ens!(w().track_info == info0, "the track is the given one");
		} else {
			let k = nd::below(25) as usize;
			ens!(t.name[k] == if k < len { name[k] } else { 0 }, "the track carries the community's name");
		}
	}
	ens!(w().inducted == 1 && w().induct == own, "the community's account joins the collective");
	let last = &frame_system::Pallet::<Rt>::state().last;
	ens!(matches!(last, Some(RuntimeEvent::Manager(Event::CommunityRegistered { id: e })) if *e == id), "the registration is reported");
	let stray = Info::<Rt>::table().stray_writes
		+ CommunityIdFor::<Rt>::table().stray_writes
		+ CommunityDecisionMethod::<Rt>::table().stray_writes;
	ens!(stray == 0, "nothing else is written");
}

fn m02(by: u8, amount: u16) {
	m02_at(by, amount, nd::any())
}
fn m02_at(by: u8, amount: u16, first: u32) {
	start();
	let price: Bal = nd::any();
	w().first = first;
	w().price = price;
	w().may_refuse = false;
	let o = caller_of(by);
	let entitled = o == OriginCaller::Other(OtherOrigin(MINTER as u32));
	let r = Pallet::<Rt>::create_memberships(RuntimeOrigin { caller: dup(&o) }, amount, first, price);
	ens!(r.is_ok() == (entitled && amount <= 1024), "succeeds exactly for a caller with the right and at most 1024");
	reach!(by != 9 || amount > 1024 || r.is_ok(), "memberships are created");
	if r.is_err() {
		ens!(w().minted == 0 && w().priced == 0, "a refused call creates nothing");
		return;
	}
	let left = (u32::MAX - first) as u64 + 1;
	let n = if (amount as u64) < left { amount as u32 } else { left as u32 };
	ens!(w().minted == n, "exactly the requested number, or what the id range has left");
	ens!(w().priced == n, "each is put up for sale");
	ens!(!w().wrong_mint, "consecutive ids, for the owner, in the managers' collection, at the price");
	let last = &frame_system::Pallet::<Rt>::state().last;
	ens!(
		matches!(last, Some(RuntimeEvent::Manager(Event::MembershipsCreated { starting_at, amount })) if *starting_at == first && *amount == n),
		"start and number minted are reported"
	);
}
fn m02_refusal(amount: u16) {
	start();
	w().first = nd::any();
	w().price = nd::any();
	let r = Pallet::<Rt>::create_memberships(
		RuntimeOrigin { caller: OriginCaller::Other(OtherOrigin(MINTER as u32)) },
		amount,
		w().first,
		w().price,
	);
	ens!(r.is_ok() == !w().refused, "fails when an item cannot be created or priced");
	reach!(r.is_err(), "an item is refused");
}
fn upto(n: u16) -> u16 {
	let a: u16 = nd::any();
	req!(a <= n);
	a
}
fn above(n: u16) -> u16 {
	let a: u16 = nd::any();
	req!(a > n);
	a
}

nd::harnesses! {
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_membership => m01(9, 0, true);
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_native => m01(9, 1, false);
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_asset => m01(9, 2, false);
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_rank => m01(9, 3, false);
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_plain => m01(9, 4, false);
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_plain_track => m01(9, 4, true);
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_not_by_root => m01(0, 4, false);
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_not_by_signed => m01(2, 4, false);
	#[kani::stub(core::str::from_utf8, from_utf8)]
	m01_not_by_community => m01(3, 4, false);
	#[kani::unwind(3)]
	m02_too_many => m02(9, above(1024));
	#[kani::unwind(10)]
	m02_few => m02(9, upto(8));
	#[kani::unwind(66)]
	m02_many => m02(9, upto(64));
	#[kani::unwind(10)]
	m02_last => m02_at(9, upto(1024), u32::MAX - nd::below(8) as u32);
	m02_refused => m02_refusal(3);
	m02_not_by_root => m02(0, upto(3));
	m02_not_by_signed => m02(2, upto(3));
	m02_not_by_community => m02(3, upto(3));
}
