use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub mod prelude {
	pub use super::{
		Asset, AssetId, Assets, BodyId, BodyPart, Fungibility, Fungibility::*, InteriorLocation, Junction, Junction::*, Junctions,
		Here, Location, NetworkId, NetworkId::*, OriginKind, Xcm,
	};
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum NetworkId {
	ByGenesis([u8; 32]),
	ByFork { block_number: u64, block_hash: [u8; 32] },
	Polkadot,
	Kusama,
	Westend,
	Rococo,
	Wococo,
	Ethereum {
		#[codec(compact)]
		chain_id: u64,
	},
	BitcoinCore,
	BitcoinCash,
	PolkadotBulletin,
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum BodyId {
	Unit,
	Moniker([u8; 4]),
	Index(#[codec(compact)] u32),
	Executive,
	Technical,
	Legislative,
	Judicial,
	Defense,
	Administration,
	Treasury,
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum BodyPart {
	Voice,
	Members {
		#[codec(compact)]
		count: u32,
	},
	Fraction {
		#[codec(compact)]
		nom: u32,
		#[codec(compact)]
		denom: u32,
	},
	AtLeastProportion {
		#[codec(compact)]
		nom: u32,
		#[codec(compact)]
		denom: u32,
	},
	MoreThanProportion {
		#[codec(compact)]
		nom: u32,
		#[codec(compact)]
		denom: u32,
	},
}
impl BodyPart {
	pub fn is_majority(&self) -> bool {
		match self {
			BodyPart::Fraction { nom, denom } if *nom as u64 * 2 > *denom as u64 => true,
			BodyPart::AtLeastProportion { nom, denom } if *nom as u64 * 2 > *denom as u64 => true,
			BodyPart::MoreThanProportion { nom, denom } if *nom as u64 * 2 >= *denom as u64 => true,
			_ => false,
		}
	}
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum Junction {
	Parachain(#[codec(compact)] u32),
	AccountId32 {
		network: Option<NetworkId>,
		id: [u8; 32],
	},
	AccountIndex64 {
		network: Option<NetworkId>,
		#[codec(compact)]
		index: u64,
	},
	AccountKey20 {
		network: Option<NetworkId>,
		key: [u8; 20],
	},
	PalletInstance(u8),
	GeneralIndex(#[codec(compact)] u128),
	GeneralKey {
		length: u8,
		data: [u8; 32],
	},
	OnlyChild,
	Plurality {
		id: BodyId,
		part: BodyPart,
	},
	GlobalConsensus(NetworkId),
}
impl From<NetworkId> for Junction {
	fn from(n: NetworkId) -> Self {
		Junction::GlobalConsensus(n)
	}
}
impl From<u128> for Junction {
	fn from(i: u128) -> Self {
		Junction::GeneralIndex(i)
	}
}
impl From<[u8; 32]> for Junction {
	fn from(id: [u8; 32]) -> Self {
		Junction::AccountId32 { network: None, id }
	}
}

/// Kept in place: how many junctions there are, and the junctions; the rest is filled with `OnlyChild`.
#[derive(Copy, Clone, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Junctions {
	n: u8,
	j: [Junction; 5],
}
impl PartialEq for Junctions {
	fn eq(&self, o: &Self) -> bool {
		let at = |i: usize| i >= self.n as usize || self.j[i] == o.j[i];
		self.n == o.n && at(0) && at(1) && at(2) && at(3) && at(4)
	}
}
const E: Junction = Junction::OnlyChild;
macro_rules! of_array { ($($n:literal [$($a:ident)*] [$($e:ident)*];)*) => { $(
	impl From<[Junction; $n]> for Junctions { fn from([$($a),*]: [Junction; $n]) -> Self { Junctions { n: $n, j: [$($a,)* $($e,)*] } } }
	impl From<[Junction; $n]> for Location { fn from(j: [Junction; $n]) -> Self { Location { parents: 0, interior: j.into() } } }
)* } }
of_array! {
	1 [a] [E E E E];
	2 [a b] [E E E];
	3 [a b c] [E E];
	4 [a b c d] [E];
	5 [a b c d e] [];
}
impl From<[Junction; 0]> for Junctions {
	fn from(_: [Junction; 0]) -> Self {
		Junctions::Here
	}
}
impl From<Junction> for Junctions {
	fn from(j: Junction) -> Self {
		[j].into()
	}
}
impl From<()> for Junctions {
	fn from(_: ()) -> Self {
		Junctions::Here
	}
}
#[allow(non_upper_case_globals)]
pub const Here: Junctions = Junctions::Here;
#[allow(non_upper_case_globals)]
impl Junctions {
	pub const Here: Junctions = Junctions { n: 0, j: [E; 5] };
	/// The first `n` of `j`, which has `OnlyChild` after them.
	pub fn up_to(n: u8, j: [Junction; 5]) -> Self {
		Junctions { n, j }
	}
	pub fn as_slice(&self) -> &[Junction] {
		&self.j[..self.n as usize]
	}
	pub fn len(&self) -> usize {
		self.as_slice().len()
	}
	pub fn is_empty(&self) -> bool {
		self.len() == 0
	}
	pub fn iter(&self) -> core::slice::Iter<'_, Junction> {
		self.as_slice().iter()
	}
	pub fn first(&self) -> Option<&Junction> {
		self.as_slice().first()
	}
	pub fn last(&self) -> Option<&Junction> {
		self.as_slice().last()
	}
	pub fn at(&self, i: usize) -> Option<&Junction> {
		self.as_slice().get(i)
	}
	pub const fn into_location(self) -> Location {
		Location { parents: 0, interior: self }
	}
}
pub type InteriorLocation = Junctions;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Location {
	pub parents: u8,
	pub interior: Junctions,
}
impl Location {
	pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
		Location { parents, interior: interior.into() }
	}
	pub const fn here() -> Self {
		Location { parents: 0, interior: Junctions::Here }
	}
	pub const fn parent() -> Self {
		Location { parents: 1, interior: Junctions::Here }
	}
	pub fn unpack(&self) -> (u8, &[Junction]) {
		(self.parents, self.interior.as_slice())
	}
	pub fn interior(&self) -> &Junctions {
		&self.interior
	}
	pub const fn parent_count(&self) -> u8 {
		self.parents
	}
	pub fn len(&self) -> usize {
		self.parents as usize + self.interior.len()
	}
	pub fn is_empty(&self) -> bool {
		self.len() == 0
	}
	pub fn first_interior(&self) -> Option<&Junction> {
		self.interior.first()
	}
	pub fn last(&self) -> Option<&Junction> {
		self.interior.last()
	}
	pub fn at(&self, i: usize) -> Option<&Junction> {
		let n = self.parents as usize;
		if i < n {
			return None;
		}
		self.interior.at(i - n)
	}
	pub fn is_here(&self) -> bool {
		self.parents == 0 && self.interior.is_empty()
	}
	/// As xcm: same number of parents, and the prefix's junctions come first.
	pub fn starts_with(&self, prefix: &Location) -> bool {
		if self.parents != prefix.parents || self.interior.len() < prefix.interior.len() {
			return false;
		}
		let (a, b) = (self.interior.as_slice(), prefix.interior.as_slice());
		let mut i = 0;
		while i < b.len() {
			if a[i] != b[i] {
				return false;
			}
			i += 1;
		}
		true
	}
	pub fn contains_parents_only(&self, n: u8) -> bool {
		self.parents == n && self.interior.is_empty()
	}
}
impl Default for Location {
	fn default() -> Self {
		Self::here()
	}
}
impl From<Junction> for Location {
	fn from(j: Junction) -> Self {
		Location { parents: 0, interior: j.into() }
	}
}
impl From<Junctions> for Location {
	fn from(interior: Junctions) -> Self {
		Location { parents: 0, interior }
	}
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo)]
pub struct AssetId(pub Location);
impl From<Location> for AssetId {
	fn from(l: Location) -> Self {
		AssetId(l)
	}
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo)]
pub enum Fungibility {
	Fungible(#[codec(compact)] u128),
	NonFungible(u128),
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo)]
pub struct Asset {
	pub id: AssetId,
	pub fun: Fungibility,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct Assets(pub Vec<Asset>);
#[derive(Copy, Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum OriginKind {
	Native,
	SovereignAccount,
	Superuser,
	Xcm,
}
pub struct Xcm<Call>(pub Vec<Call>);
