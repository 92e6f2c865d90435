//! Membership traits of frame-contrib, as used by the code under proof.
use core::num::NonZeroU8;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::DispatchResult;

/// Rank with saturating steps, as in frame-contrib.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct GenericRank(pub u8);
impl GenericRank {
	pub const MAX: Self = GenericRank(u8::MAX);
	pub const MIN: Self = GenericRank(u8::MIN);
	pub const ADMIN: Self = Self::MAX;
	pub fn set(&mut self, n: u8) {
		self.0 = n;
	}
	#[must_use]
	pub fn promote_by(self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_add(n.get()))
	}
	#[must_use]
	pub fn demote_by(self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_sub(n.get()))
	}
}
impl From<GenericRank> for u8 {
	fn from(r: GenericRank) -> u8 {
		r.0
	}
}
impl From<GenericRank> for u16 {
	fn from(r: GenericRank) -> u16 {
		r.0 as u16
	}
}
impl From<GenericRank> for u32 {
	fn from(r: GenericRank) -> u32 {
		r.0 as u32
	}
}
impl From<u8> for GenericRank {
	fn from(n: u8) -> Self {
		GenericRank(n)
	}
}

pub trait Inspect<AccountId> {
	type Group: 'static;
	type Membership: 'static;
	fn user_memberships(who: &AccountId, maybe_group: Option<Self::Group>) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>>;
	fn is_member_of(group: &Self::Group, who: &AccountId) -> bool;
	fn check_membership(who: &AccountId, m: &Self::Membership) -> Option<Self::Group>;
	fn members_total(group: &Self::Group) -> u32;
	fn group_available_memberships(_group: &Self::Group) -> Box<dyn Iterator<Item = Self::Membership>> {
		nd::model_gap!(false, "group_available_memberships");
		Box::new(core::iter::empty())
	}
}
pub trait Manager<AccountId, ImplConfig>: Inspect<AccountId> {
	fn assign(group: &Self::Group, m: &Self::Membership, who: &AccountId) -> DispatchResult;
	fn release(group: &Self::Group, m: &Self::Membership) -> DispatchResult;
}
pub trait Rank<AccountId, ImplConfig>: Inspect<AccountId> {
	fn rank_of(group: &Self::Group, m: &Self::Membership) -> Option<GenericRank>;
	fn set_rank(group: &Self::Group, m: &Self::Membership, rank: impl Into<GenericRank>) -> DispatchResult;
	fn ranks_total(group: &Self::Group) -> u32;
}
