//! Contracts of the chain encoding of payment ids (I05) and of the asset location conversion (I06), discharged on
//! virto-common built with its `runtime` feature.
use nd::{ens, reach, req};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen, Output};
use sp_runtime::traits::MaybeEquivalence;
use virto_common::{AsFungibleAssetLocation as Conv, FungibleAssetLocation as Asset, PaymentId};
use xcm::latest::{BodyId, BodyPart, Junction, Junctions, Location, NetworkId};

// --- payment id codec -----------------------------------------------------------------------------

struct Buf([u8; 16], usize);
impl Output for Buf {
	fn write(&mut self, b: &[u8]) {
		let mut i = 0;
		while i < b.len() && self.1 < 16 {
			self.0[self.1] = b[i];
			self.1 += 1;
			i += 1;
		}
	}
}
fn i05_encode() {
	let n: u64 = nd::any();
	let id = PaymentId::from(n);
	let want = n.to_le_bytes();
	let same = |b: &[u8]| b.len() == 8 && u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) == n;
	ens!(n.using_encoded(|b| same(b)), "the number's own encoding is its eight bytes");
	ens!(id.using_encoded(|b| same(b)), "encoded in place like the number");
	let mut out = Buf([0; 16], 0);
	id.encode_to(&mut out);
	ens!(out.1 == 8 && same(&out.0[..8]), "written out like the number");
	let v = id.encode();
	ens!(same(&v), "encoded into a vector like the number");
	ens!(id.encoded_size() == 8 && id.size_hint() == 8, "the size is eight bytes");
	ens!(<PaymentId as MaxEncodedLen>::max_encoded_len() == 8, "the declared maximum is eight bytes");
	ens!(<PaymentId as Decode>::encoded_fixed_size() == Some(8), "the declared fixed size is eight bytes");
	let back = core::mem::ManuallyDrop::new(PaymentId::decode(&mut &want[..]));
	ens!(matches!(&*back, Ok(p) if *p == id && p.to_number() == n), "decoding what was encoded gives the same id");
	reach!(n == u64::MAX, "the last id");
}
fn i05_decode() {
	let mut b = [0u8; 12];
	let mut i = 0;
	while i < 12 {
		b[i] = nd::any();
		i += 1;
	}
	let len = nd::below(13) as usize;
	let mut s = &b[..len];
	let r = core::mem::ManuallyDrop::new(PaymentId::decode(&mut s));
	ens!(r.is_ok() == (len >= 8), "fewer than eight bytes are rejected, any eight accepted");
	reach!(r.is_ok(), "an id is decoded");
	if let Ok(p) = &*r {
		let n = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
		ens!(p.to_number() == n && *p == PaymentId::from(n), "the id of that number");
		ens!(s.len() == len - 8, "exactly eight bytes are consumed");
	}
}

// --- asset locations ------------------------------------------------------------------------------

fn bytes<const N: usize>() -> [u8; N] {
	let mut b = [0; N];
	let mut i = 0;
	while i < N {
		b[i] = nd::any();
		i += 1;
	}
	b
}
fn network() -> NetworkId {
	match nd::below(11) {
		0 => NetworkId::ByGenesis([nd::any(); 32]),
		1 => NetworkId::ByFork { block_number: nd::any(), block_hash: [nd::any(); 32] },
		2 => NetworkId::Polkadot,
		3 => NetworkId::Kusama,
		4 => NetworkId::Westend,
		5 => NetworkId::Rococo,
		6 => NetworkId::Wococo,
		7 => NetworkId::Ethereum { chain_id: nd::any() },
		8 => NetworkId::BitcoinCore,
		9 => NetworkId::BitcoinCash,
		_ => NetworkId::PolkadotBulletin,
	}
}
/// Junctions that carry account or body data are one of each kind: no asset id has a place for their contents.
fn junction() -> Junction {
	match nd::below(10) {
		0 => Junction::Parachain(nd::any()),
		1 => Junction::AccountId32 { network: None, id: [nd::any(); 32] },
		2 => Junction::AccountIndex64 { network: None, index: nd::any() },
		3 => Junction::AccountKey20 { network: None, key: [nd::any(); 20] },
		4 => Junction::PalletInstance(nd::any()),
		5 => Junction::GeneralIndex(nd::any()),
		6 => Junction::GeneralKey { length: nd::any(), data: [nd::any(); 32] },
		7 => Junction::OnlyChild,
		8 => Junction::Plurality { id: BodyId::Unit, part: BodyPart::Voice },
		_ => Junction::GlobalConsensus(network()),
	}
}
fn same_network(a: &NetworkId, b: &NetworkId) -> bool {
	match (a, b) {
		(NetworkId::Polkadot, NetworkId::Polkadot) | (NetworkId::Kusama, NetworkId::Kusama) => true,
		(NetworkId::Ethereum { chain_id: a }, NetworkId::Ethereum { chain_id: b }) => a == b,
		_ => false,
	}
}
/// Equality on what an asset id can express; anything else it cannot give back.
fn same_junction(a: &Junction, b: &Junction) -> bool {
	match (a, b) {
		(Junction::Parachain(a), Junction::Parachain(b)) => a == b,
		(Junction::PalletInstance(a), Junction::PalletInstance(b)) => a == b,
		(Junction::GeneralIndex(a), Junction::GeneralIndex(b)) => a == b,
		(Junction::GlobalConsensus(a), Junction::GlobalConsensus(b)) => same_network(a, b),
		_ => false,
	}
}
fn same_location(a: &Location, b: &Location) -> bool {
	let (a, b) = (a.unpack(), b.unpack());
	if a.0 != b.0 || a.1.len() != b.1.len() || a.1.len() > 5 {
		return false;
	}
	let mut i = 0;
	while i < a.1.len() {
		if !same_junction(&a.1[i], &b.1[i]) {
			return false;
		}
		i += 1;
	}
	true
}
fn interior(len: u8) -> Junctions {
	let j = junction;
	match len {
		0 => Junctions::Here,
		1 => [j()].into(),
		2 => [j(), j()].into(),
		3 => [j(), j(), j()].into(),
		4 => [j(), j(), j(), j()].into(),
		_ => [j(), j(), j(), j(), j()].into(),
	}
}
/// Whatever location converts, converts back to itself; this also refuses every location without an exact asset id.
fn i06_location(len: u8) {
	let l = Location { parents: nd::any(), interior: interior(len) };
	let r = Conv::convert(&l);
	reach!(!(1..5).contains(&len) || r.is_some(), "some location of this depth is an asset");
	if let Some(a) = r {
		let back = Conv::convert_back(&a);
		ens!(matches!(&back, Some(b) if same_location(b, &l)), "the asset id converts back to the same location");
	}
}
fn asset(bytes: &[u8]) -> Option<Asset> {
	let mut s = bytes;
	let r = core::mem::ManuallyDrop::new(Asset::decode(&mut s));
	match &*r {
		Ok(a) if s.is_empty() => Some(*a),
		_ => {
			nd::model_gap!(false, "asset id layout");
			None
		}
	}
}
/// Every asset id converts to a location that converts back to it.
fn i06_asset(a: Option<Asset>) {
	let Some(a) = a else { return };
	let l = Conv::convert_back(&a);
	ens!(l.is_some(), "every asset id has a location");
	let Some(l) = l else { return };
	ens!(Conv::convert(&l) == Some(a), "the location converts back to the same asset id");
	reach!(true, "reached");
}
fn here() -> Option<Asset> {
	let b = bytes::<4>();
	asset(&[0, b[0], b[1], b[2], b[3]])
}
fn sibling() -> Option<Asset> {
	let b = bytes::<7>();
	asset(&[1, b[0], b[1], b[2], b[3], b[4], b[5], b[6]])
}
fn external(net: u8, child: bool) -> Option<Asset> {
	let c = bytes::<8>();
	let b = bytes::<7>();
	match (net, child) {
		(2, false) => asset(&[2, 2, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], 0]),
		(2, true) => asset(&[
			2, 2, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], 1, b[0], b[1], b[2], b[3], b[4], b[5], b[6],
		]),
		(n, false) => asset(&[2, n, 0]),
		(n, true) => asset(&[2, n, 1, b[0], b[1], b[2], b[3], b[4], b[5], b[6]]),
	}
}
/// Numbers from the chain's own asset ids are local assets.
fn i06_number() {
	let n: u32 = nd::any();
	req!(n > 0);
	ens!(Asset::from(n) != Asset::default() && Asset::from(n) != Asset::from(n - 1), "different numbers are different assets");
	reach!(n == u32::MAX, "the last number");
}

nd::harnesses! {
	i05_encoded => i05_encode();
	i05_decoded => i05_decode();
	i06_location_0 => i06_location(0);
	i06_location_1 => i06_location(1);
	i06_location_2 => i06_location(2);
	i06_location_3 => i06_location(3);
	i06_location_4 => i06_location(4);
	i06_location_5 => i06_location(5);
	i06_here => i06_asset(here());
	i06_sibling => i06_asset(sibling());
	i06_polkadot => i06_asset(external(0, false));
	i06_kusama => i06_asset(external(1, false));
	i06_ethereum => i06_asset(external(2, false));
	i06_polkadot_child => i06_asset(external(0, true));
	i06_kusama_child => i06_asset(external(1, true));
	i06_ethereum_child => i06_asset(external(2, true));
	i06_numbers => i06_number();
}
