//! What the runtime under proof runs on: model state and inputs drawn for it.
use frame_support::dispatch::RawOrigin;
use kreivo_runtime::{communities::governance::CommunityTracksInstance, *};
use pallet_communities::origin::Subset;
use std::ptr::addr_of_mut;

pub type Acc = AccountId;
pub type CommunityOrigin = pallet_communities::Origin<Runtime>;

static mut SYSTEM: frame_system::State<RuntimeEvent> = frame_system::State::new();
static mut MIN: pallet_assets::MinBalance<FungibleAssetLocation, Balance> = pallet_assets::MinBalance(None);
static mut KNOWN: pallet_referenda_tracks::Known<OriginCaller, u16> = pallet_referenda_tracks::Known(None);
static mut MEMBER: pallet_nfts::Membership<u16, Acc> = pallet_nfts::Membership(None);

pub fn reset() {
	unsafe {
		SYSTEM = frame_system::State::new();
		MIN = pallet_assets::MinBalance(None);
		KNOWN = pallet_referenda_tracks::Known(None);
		MEMBER = pallet_nfts::Membership(None);
		sp_runtime::per_things::scale::reset();
		sp_runtime::per_things::ratio::reset();
		sp_runtime::per_things::scale::EXACT = true;
		sp_runtime::per_things::ratio::EXACT = true;
		frame_system::Pallet::<Runtime>::install(addr_of_mut!(SYSTEM));
		Assets::install(addr_of_mut!(MIN));
		pallet_referenda_tracks::Pallet::<Runtime, CommunityTracksInstance>::install(addr_of_mut!(KNOWN));
		CommunityMemberships::install(addr_of_mut!(MEMBER));
	}
}

/// Ratios of symbolic values as an uninterpreted function that keeps order.
pub fn inexact() {
	unsafe {
		sp_runtime::per_things::scale::EXACT = false;
		sp_runtime::per_things::scale::LOWEST = true;
	}
}

pub fn bytes<const N: usize>() -> [u8; N] {
	let mut b = [0; N];
	let mut i = 0;
	while i < N {
		b[i] = nd::any();
		i += 1;
	}
	b
}
pub fn same<const N: usize>(a: &[u8; N], b: &[u8; N]) -> bool {
	let mut i = 0;
	let mut r = true;
	while i < N {
		r &= a[i] == b[i];
		i += 1;
	}
	r
}
/// The account of a sub-system: its kind, its name and a number, then zeros.
pub fn derived(name: &[u8; 8], id: u16) -> [u8; 32] {
	let mut b = [0; 32];
	(b[0], b[1], b[2], b[3]) = (b'm', b'o', b'd', b'l');
	let mut i = 0;
	while i < 8 {
		b[4 + i] = name[i];
		i += 1;
	}
	let id = id.to_le_bytes();
	(b[12], b[13]) = (id[0], id[1]);
	b
}
pub fn community_bytes(id: u16) -> [u8; 32] {
	derived(b"kv/cmtys", id)
}
pub fn raw(a: &Acc) -> [u8; 32] {
	*AsRef::<[u8; 32]>::as_ref(a)
}
/// The community whose account this is.
pub fn community_of(b: &[u8; 32]) -> Option<u16> {
	let id = u16::from_le_bytes([b[12], b[13]]);
	if same(b, &community_bytes(id)) {
		Some(id)
	} else {
		None
	}
}
/// Any account; community accounts and accounts of other sub-systems have cases of their own (for searches).
pub fn account() -> [u8; 32] {
	match nd::below(4) {
		0 => community_bytes(nd::any()),
		1 => derived(&bytes::<8>(), nd::any()),
		2 => derived(b"py/trsry", nd::any()),
		_ => bytes::<32>(),
	}
}

pub fn subset(k: u8) -> Option<Subset<Runtime>> {
	match k {
		0 => None,
		1 => Some(Subset::Member(nd::any())),
		2 => Some(Subset::Members { count: nd::any() }),
		3 => Some(Subset::Fraction(sp_runtime::Permill::from_parts(nd::any()))),
		_ => Some(Subset::AtLeastRank(fc_traits_memberships::GenericRank(nd::any()))),
	}
}
pub fn community_origin(id: u16, k: u8) -> CommunityOrigin {
	let mut o = CommunityOrigin::new(id);
	if let Some(s) = subset(k) {
		o.with_subset(s);
	}
	o
}
/// What an origin is, as the contracts see it.
#[derive(Clone, Copy)]
pub enum Who {
	Root,
	None,
	Signed([u8; 32]),
	Custom(u8),
	Xcm(u8, u64),
	Cumulus(Option<u32>),
	Community(u16, u8),
}
pub const KINDS: u8 = 7;
pub fn who(kind: u8) -> Who {
	match kind {
		0 => Who::Root,
		1 => Who::None,
		2 => Who::Signed(account()),
		3 => Who::Custom(nd::below(3)),
		4 => Who::Xcm(nd::below(2), nd::any()),
		5 => Who::Cumulus(if nd::any() { Some(nd::any()) } else { None }),
		_ => Who::Community(nd::any(), nd::below(5)),
	}
}
pub fn custom(k: u8) -> governance::pallet_custom_origins::Origin {
	use governance::pallet_custom_origins::Origin::*;
	match k {
		0 => CreateMemberships,
		1 => ReferendumCanceller,
		_ => ReferendumKiller,
	}
}
pub fn caller(w: Who) -> OriginCaller {
	match w {
		Who::Root => RawOrigin::Root.into(),
		Who::None => RawOrigin::None.into(),
		Who::Signed(a) => RawOrigin::Signed(Acc::from(a)).into(),
		Who::Custom(k) => custom(k).into(),
		Who::Xcm(0, n) => pallet_xcm::Origin::Xcm(n).into(),
		Who::Xcm(_, n) => pallet_xcm::Origin::Response(n).into(),
		Who::Cumulus(None) => cumulus_pallet_xcm::Origin::Relay.into(),
		Who::Cumulus(Some(n)) => cumulus_pallet_xcm::Origin::SiblingParachain(n).into(),
		Who::Community(id, k) => community_origin(id, k).into(),
	}
}
pub fn origin(w: Who) -> RuntimeOrigin {
	caller(w).into()
}

/// `Vec::push` for short vectors: contract "appends"; the memory is taken anew each time and never given back.
#[cfg(kani)]
pub fn push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, t: T) {
	let n = v.len();
	nd::model_gap!(n < 3, "vector longer than the model covers");
	let at = Box::into_raw(Box::new([const { core::mem::MaybeUninit::<T>::uninit() }; 4])) as *mut T;
	unsafe {
		let mut i = 0;
		while i < n {
			core::ptr::write(at.add(i), core::ptr::read(v.as_ptr().add(i)));
			i += 1;
		}
		core::ptr::write(at.add(n), t);
		let new = Vec::from_raw_parts_in(at, n + 1, 4, core::ptr::read(v.allocator()));
		core::ptr::write(v, new);
	}
}
