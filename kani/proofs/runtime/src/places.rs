//! Who is who across chains: community accounts (R07), reserves (R08), account locations (R09), free execution (R10).
use crate::world::*;
use frame_support::traits::{Contains, ContainsPair, EnsureOrigin, Get};
use kreivo_runtime::{xcm_config::*, *};
use nd::{ens, reach};
use sp_runtime::traits::TryConvert;
use xcm::latest::{Asset, AssetId, BodyId, BodyPart, Fungibility, Junction, Junctions, Location, NetworkId};
use xcm_executor::traits::ConvertLocation;

// --- R07 -----------------------------------------------------------------------------------------

fn r07_admin(kind: u8, mgmt: bool) {
	reset();
	let w = who(kind);
	type Admin = <Runtime as pallet_communities::Config>::AdminOrigin;
	type Mgmt = <Runtime as pallet_communities::Config>::MemberMgmtOrigin;
	let Who::Signed(a) = w else { return };
	let r = if mgmt {
		<Mgmt as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(w))
	} else {
		<Admin as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(w))
	};
	let c = community_of(&a);
	ens!(matches!((&r, c), (Err(_), None) | (Ok(_), Some(_))), "a signed account acts as a community only if it is one's account");
	ens!(!matches!((&r, c), (Ok(i), Some(id)) if *i != id), "and as that very community");
	reach!(c.is_some(), "a community account");
	reach!(c.is_none(), "another account");
}
fn r07_send(kind: u8) {
	reset();
	let w = who(kind);
	let r = <CanSendXcmMessages as TryConvert<RuntimeOrigin, Location>>::try_convert(origin(w));
	let c = match w {
		Who::Signed(a) => community_of(&a),
		Who::Community(id, _) => Some(id),
		_ => None,
	};
	ens!(r.is_ok() == c.is_some() || !matches!(w, Who::Signed(_)) && r.is_err(), "only communities send messages");
	if let (Ok(l), Some(id)) = (&r, c) {
		let right = match l.unpack() {
			(0, [Junction::Plurality { id: BodyId::Index(i), part }]) => {
				*i == id as u32 && (!matches!(w, Who::Signed(_)) || matches!(part, BodyPart::Voice))
			}
			_ => false,
		};
		ens!(right, "the message comes from that very community");
	}
	reach!(kind != 2 || r.is_ok(), "sent");
}

// --- locations -----------------------------------------------------------------------------------

fn network() -> NetworkId {
	match nd::below(11) {
		0 => NetworkId::ByGenesis([nd::any(); 32]),
		1 => NetworkId::ByFork { block_number: nd::any(), block_hash: [nd::any(); 32] },
		2 => NetworkId::Polkadot,
		3 => NetworkId::Kusama,
		4 => NetworkId::Westend,
		5 => NetworkId::Rococo,
		6 => NetworkId::Wococo,
		7 => NetworkId::Ethereum { chain_id: nd::any() },
		8 => NetworkId::BitcoinCore,
		9 => NetworkId::BitcoinCash,
		_ => NetworkId::PolkadotBulletin,
	}
}
fn body() -> BodyId {
	match nd::below(10) {
		0 => BodyId::Unit,
		1 => BodyId::Moniker(bytes::<4>()),
		2 => BodyId::Index(nd::any()),
		3 => BodyId::Executive,
		4 => BodyId::Technical,
		5 => BodyId::Legislative,
		6 => BodyId::Judicial,
		7 => BodyId::Defense,
		8 => BodyId::Administration,
		_ => BodyId::Treasury,
	}
}
fn part() -> BodyPart {
	match nd::below(5) {
		0 => BodyPart::Voice,
		1 => BodyPart::Members { count: nd::any() },
		2 => BodyPart::Fraction { nom: nd::any(), denom: nd::any() },
		3 => BodyPart::AtLeastProportion { nom: nd::any(), denom: nd::any() },
		_ => BodyPart::MoreThanProportion { nom: nd::any(), denom: nd::any() },
	}
}
fn junction() -> Junction {
	let net = |some: bool| if some { Some(network()) } else { None };
	match nd::below(10) {
		0 => Junction::Parachain(if nd::any() { nd::any() } else { 1000 }),
		1 => Junction::AccountId32 { network: net(nd::any()), id: bytes::<32>() },
		2 => Junction::AccountIndex64 { network: net(nd::any()), index: nd::any() },
		3 => Junction::AccountKey20 { network: net(nd::any()), key: [nd::any(); 20] },
		4 => Junction::PalletInstance(nd::any()),
		5 => Junction::GeneralIndex(nd::any()),
		6 => Junction::GeneralKey { length: nd::any(), data: [nd::any(); 32] },
		7 => Junction::OnlyChild,
		8 => Junction::Plurality { id: body(), part: part() },
		_ => Junction::GlobalConsensus(network()),
	}
}
/// A junction of few kinds, for what only its place matters of.
fn tail() -> Junction {
	match nd::below(3) {
		0 => Junction::PalletInstance(nd::any()),
		1 => Junction::GeneralIndex(nd::any()),
		_ => Junction::Parachain(nd::any()),
	}
}
fn parents() -> u8 {
	if nd::any() {
		nd::below(4)
	} else {
		nd::any()
	}
}
fn interior(len: u8) -> Junctions {
	let j = junction;
	match len {
		0 => Junctions::Here,
		1 => [j()].into(),
		2 => [j(), tail()].into(),
		3 => [j(), tail(), tail()].into(),
		4 => [j(), tail(), tail(), tail()].into(),
		_ => [j(), tail(), tail(), tail(), tail()].into(),
	}
}
fn location(len: u8) -> Location {
	Location { parents: parents(), interior: interior(len) }
}

/// Any location of `len.0` to `len.1` junctions.
fn at(len: (u8, u8)) -> Location {
	let n = len.0 + if len.0 == len.1 { 0 } else { nd::below(len.1 - len.0 + 1) };
	let j = |i: u8| {
		if i >= n {
			Junction::OnlyChild
		} else if i == 0 {
			junction()
		} else {
			tail()
		}
	};
	Location { parents: parents(), interior: Junctions::up_to(n, [j(0), j(1), j(2), j(3), j(4)]) }
}

// --- R08 -----------------------------------------------------------------------------------------

fn asset_hub(l: &Location, under: bool) -> bool {
	match l.unpack() {
		(1, [Junction::Parachain(1000)]) => true,
		(1, [Junction::Parachain(1000), ..]) => under,
		_ => false,
	}
}
fn polkadot(l: &Location) -> bool {
	matches!(l.unpack(), (2, [Junction::GlobalConsensus(NetworkId::Polkadot), ..]))
}
fn asset_at(id: &Location) -> Asset {
	Asset { id: AssetId(*id), fun: Fungibility::Fungible(1) }
}
/// An asset and a sender of any depth.
fn r08_reserve(asset_len: u8, origin_len: u8) {
	reset();
	let id = at((asset_len, asset_len));
	let from = at((origin_len, origin_len));
	let a = asset_at(&id);
	let itself = id == from;
	let expect = itself || asset_hub(&from, false) && (asset_hub(&id, true) || polkadot(&id));
	let r = <Reserves as ContainsPair<Asset, Location>>::contains(&a, &from);
	ens!(r == expect, "accepted exactly from itself, or from the asset hub for its own and the Polkadot ecosystem's assets");
	reach!(asset_len != origin_len || r && itself, "an asset that is its own reserve");
	reach!(asset_len < 1 || origin_len != 1 || r && !itself, "an asset of the asset hub or beyond");
	reach!(!r, "refused");
}
fn r08_config() {
	reset();
	let id = at((1, 1));
	let from = at((1, 1));
	let a = asset_at(&id);
	type Conf = <XcmConfig as xcm_executor::Config>::IsReserve;
	let r = <Reserves as ContainsPair<Asset, Location>>::contains(&a, &from);
	ens!(<Conf as ContainsPair<Asset, Location>>::contains(&a, &from) == r, "the executor uses that rule");
	reach!(r, "accepted");
}
struct Deep;
impl Get<Location> for Deep {
	fn get() -> Location {
		Location::new(1, [Junction::Parachain(7), Junction::PalletInstance(9)])
	}
}
struct Hub;
impl Get<Location> for Hub {
	fn get() -> Location {
		Location::new(1, [Junction::Parachain(1000)])
	}
}
/// Prefixes of more than one junction.
fn r08_prefix(len: u8) {
	reset();
	let pick = || match nd::below(4) {
		0 => Junction::Parachain(7),
		1 => Junction::PalletInstance(9),
		2 => Junction::PalletInstance(nd::any()),
		_ => Junction::Parachain(nd::any()),
	};
	let j: Junctions = match len {
		1 => [pick()].into(),
		2 => [pick(), pick()].into(),
		_ => [pick(), pick(), pick()].into(),
	};
	let id = Location { parents: parents(), interior: j };
	let under = matches!(id.unpack(), (1, [Junction::Parachain(7), Junction::PalletInstance(9), ..]));
	let a = asset_at(&id);
	let r = <ReserveForeignAssetsFrom<Deep, Hub> as ContainsPair<Asset, Location>>::contains(&a, &Hub::get());
	ens!(r == under, "every junction of the prefix and the parent count are compared");
	let r = <ReserveForeignAssetsFrom<Deep, Hub> as ContainsPair<Asset, Location>>::contains(&a, &Deep::get());
	ens!(!r, "no other sender is accepted");
	let r = <ReserveAssetsFrom<Deep> as ContainsPair<Asset, Location>>::contains(&a, &Deep::get());
	ens!(r == under, "own assets: every junction of the prefix and the parent count are compared");
	let r = <ReserveAssetsFrom<Deep> as ContainsPair<Asset, Location>>::contains(&a, &Hub::get());
	ens!(!r, "own assets: no other sender is accepted");
	reach!(len < 2 || under, "under the prefix");
}

// --- R09, R10 ------------------------------------------------------------------------------------

fn r09(len: u8) {
	reset();
	let l = location(len);
	let r = LocationToAccountId::convert_location(&l);
	let is = |b: &[u8; 32]| matches!(&r, Some(a) if same(&raw(a), b));
	let (mut none_yet, mut relays) = (false, false);
	match l.unpack() {
		(0, [Junction::Plurality { id: BodyId::Index(i), .. }]) => {
			if *i < 65536 {
				ens!(is(&community_bytes(*i as u16)), "a numbered local body is that community's account");
			} else {
				ens!(r.is_none(), "a number that is no community id has no account");
			}
			none_yet = *i == 65536;
		}
		(1, [Junction::AccountId32 { id, network }]) | (0, [Junction::AccountId32 { id, network }]) => {
			if matches!(network, None | Some(NetworkId::Kusama)) {
				ens!(is(id), "an account of no network or the relay's is that account");
			} else {
				ens!(r.is_none(), "an account of another network has none here");
			}
			relays = r.is_some();
		}
		(1, []) => ens!(is(&parent()), "the relay chain has an account of its own"),
		(1, [Junction::Parachain(p)]) => ens!(is(&sibling(*p)), "a sibling chain has an account of its own"),
		_ => ens!(r.is_none(), "other locations have no account"),
	}
	reach!(len != 1 || none_yet, "the first number that is no community id");
	reach!(len != 1 || relays, "an account of the relay chain");
	reach!(len > 1 || r.is_some(), "converted");
}
fn parent() -> [u8; 32] {
	let mut b = [0; 32];
	let p = b"Parent";
	let mut i = 0;
	while i < 6 {
		b[i] = p[i];
		i += 1;
	}
	b
}
fn sibling(n: u32) -> [u8; 32] {
	let mut b = [0; 32];
	let n = n.to_le_bytes();
	(b[0], b[1], b[2], b[3]) = (b's', b'i', b'b', b'l');
	(b[4], b[5], b[6], b[7]) = (n[0], n[1], n[2], n[3]);
	b
}
fn r10(len: u8) {
	reset();
	let l = location(len);
	let free = ParentOrParentsExecutivePlurality::contains(&l);
	let expect = match l.unpack() {
		(1, []) => true,
		(1, [Junction::Plurality { id: BodyId::Executive, .. }]) => true,
		_ => false,
	};
	ens!(free == expect, "free exactly for the parent and its executive body");
	reach!(len > 1 || free, "free");
	reach!(!free, "not free");
}

nd::harnesses! {
	#[kani::unwind(34)]
	r07_admin_account => r07_admin(2, false);
	#[kani::unwind(34)]
	r07_members_account => r07_admin(2, true);
	#[kani::unwind(34)]
	r07_send_signed => r07_send(2);
	#[kani::unwind(34)]
	r07_send_community => r07_send(6);
	#[kani::unwind(34)]
	r07_send_root => r07_send(0);
	#[kani::unwind(34)]
	r07_send_custom => r07_send(3);
	#[kani::unwind(34)]
	r07_send_xcm => r07_send(4);
	#[kani::unwind(34)]
	r08_reserve_0_0 => r08_reserve(0, 0);
	#[kani::unwind(34)]
	r08_reserve_0_1 => r08_reserve(0, 1);
	#[kani::unwind(34)]
	r08_reserve_1_0 => r08_reserve(1, 0);
	#[kani::unwind(34)]
	r08_reserve_1_1 => r08_reserve(1, 1);
	#[kani::unwind(34)]
	r08_reserve_1_2 => r08_reserve(1, 2);
	#[kani::unwind(34)]
	r08_reserve_2_1 => r08_reserve(2, 1);
	#[kani::unwind(34)]
	r08_reserve_2_2 => r08_reserve(2, 2);
	#[kani::unwind(34)]
	r08_reserve_3_1 => r08_reserve(3, 1);
	#[kani::unwind(34)]
	r08_reserve_3_3 => r08_reserve(3, 3);
	#[kani::unwind(34)]
	r08_reserve_5_1 => r08_reserve(5, 1);
	#[kani::unwind(34)]
	r08_reserve_5_5 => r08_reserve(5, 5);
	#[kani::unwind(34)]
	r08_executor => r08_config();
	#[kani::unwind(34)]
	r08_prefix_one => r08_prefix(1);
	#[kani::unwind(34)]
	r08_prefix_two => r08_prefix(2);
	#[kani::unwind(34)]
	r08_prefix_three => r08_prefix(3);
	#[kani::unwind(34)]
	r09_here => r09(0);
	#[kani::unwind(34)]
	r09_one => r09(1);
	#[kani::unwind(34)]
	r09_two => r09(2);
	#[kani::unwind(34)]
	r09_three => r09(3);
	#[kani::unwind(34)]
	r10_here => r10(0);
	#[kani::unwind(34)]
	r10_one => r10(1);
	#[kani::unwind(34)]
	r10_two => r10(2);
	#[kani::unwind(34)]
	r10_three => r10(3);
}
