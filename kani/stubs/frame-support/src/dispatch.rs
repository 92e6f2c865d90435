pub use crate::traits::{GetDispatchInfo, UnfilteredDispatchable};
use crate::weights::Weight;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{DispatchError, DispatchErrorWithPostInfo};

pub use crate::Parameter;
pub use sp_runtime::traits::Dispatchable;
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Self::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(actual_weight: Option<Weight>) -> Self {
		Self { actual_weight, pays_fee: Default::default() }
	}
}
impl From<Pays> for PostDispatchInfo {
	fn from(pays_fee: Pays) -> Self {
		Self { actual_weight: None, pays_fee }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
		Self { actual_weight, pays_fee }
	}
}
pub type DispatchErrorWithInfo = DispatchErrorWithPostInfo<PostDispatchInfo>;

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<AccountId> From<Option<AccountId>> for RawOrigin<AccountId> {
	fn from(s: Option<AccountId>) -> RawOrigin<AccountId> {
		match s {
			Some(who) => RawOrigin::Signed(who),
			None => RawOrigin::None,
		}
	}
}
impl<AccountId> RawOrigin<AccountId> {
	pub fn as_signed(&self) -> Option<&AccountId> {
		match self {
			RawOrigin::Signed(x) => Some(x),
			_ => None,
		}
	}
}
