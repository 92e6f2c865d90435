use core::fmt::Debug;
use parity_scale_codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{AtLeast32BitUnsigned, CheckedAdd, CheckedSub, MaybeSerializeDeserialize},
	DispatchError, DispatchResult,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Precision {
	Exact,
	BestEffort,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Preservation {
	Expendable,
	Protect,
	Preserve,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fortitude {
	Polite,
	Force,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Restriction {
	Free,
	OnHold,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Provenance {
	Minted,
	Extant,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DepositConsequence {
	CannotCreate,
	BelowMinimum,
	Overflow,
	UnknownAsset,
	Success,
	Blocked,
}
impl DepositConsequence {
	pub fn into_result(self) -> DispatchResult {
		match self {
			DepositConsequence::Success => Ok(()),
			_ => Err(DispatchError::Unavailable),
		}
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WithdrawConsequence<Balance> {
	BalanceLow,
	WouldDie,
	UnknownAsset,
	Underflow,
	Overflow,
	Frozen,
	ReducedToZero(Balance),
	Success,
}
pub use sp_runtime::TokenError;

pub trait Balance:
	AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + MaybeSerializeDeserialize + Send + Sync + 'static
{
}
impl<
		T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + MaybeSerializeDeserialize + Send + Sync + 'static,
	> Balance for T
{
}
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}

fn gap<R>(r: R) -> R {
	nd::model_gap!(false, "token operation outside of the model");
	r
}

pub mod fungibles {
	use super::*;
	pub trait Inspect<AccountId>: Sized {
		type AssetId: AssetId;
		type Balance: Balance;
		fn total_issuance(_asset: Self::AssetId) -> Self::Balance {
			gap(Default::default())
		}
		fn active_issuance(asset: Self::AssetId) -> Self::Balance {
			Self::total_issuance(asset)
		}
		fn minimum_balance(_asset: Self::AssetId) -> Self::Balance {
			gap(Default::default())
		}
		fn total_balance(_asset: Self::AssetId, _who: &AccountId) -> Self::Balance {
			gap(Default::default())
		}
		fn balance(_asset: Self::AssetId, _who: &AccountId) -> Self::Balance {
			gap(Default::default())
		}
		fn reducible_balance(_asset: Self::AssetId, _who: &AccountId, _p: Preservation, _f: Fortitude) -> Self::Balance {
			gap(Default::default())
		}
		fn can_deposit(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance, _p: Provenance) -> DepositConsequence {
			gap(DepositConsequence::Success)
		}
		fn can_withdraw(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) -> WithdrawConsequence<Self::Balance> {
			gap(WithdrawConsequence::Success)
		}
		fn asset_exists(_asset: Self::AssetId) -> bool {
			gap(true)
		}
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {}
	pub trait Balanced<AccountId>: Inspect<AccountId> {}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn mint_into(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
			gap(Err(DispatchError::Unavailable))
		}
		fn burn_from(
			_asset: Self::AssetId,
			_who: &AccountId,
			_amount: Self::Balance,
			_preservation: Preservation,
			_precision: Precision,
			_force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			gap(Err(DispatchError::Unavailable))
		}
		fn transfer(
			_asset: Self::AssetId,
			_source: &AccountId,
			_dest: &AccountId,
			_amount: Self::Balance,
			_preservation: Preservation,
		) -> Result<Self::Balance, DispatchError> {
			gap(Err(DispatchError::Unavailable))
		}
	}
	pub trait Create<AccountId>: Inspect<AccountId> {
		fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
	}
	pub trait Destroy<AccountId>: Inspect<AccountId> {}
	pub mod hold {
		use super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			type Reason: Encode + TypeInfo + 'static;
			fn total_balance_on_hold(_asset: Self::AssetId, _who: &AccountId) -> Self::Balance {
				gap(Default::default())
			}
			fn balance_on_hold(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId) -> Self::Balance {
				gap(Default::default())
			}
			fn can_hold(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) -> bool {
				gap(false)
			}
			fn hold_available(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId) -> bool {
				gap(true)
			}
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn hold(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) -> DispatchResult {
				gap(Err(DispatchError::Unavailable))
			}
			fn release(
				_asset: Self::AssetId,
				_reason: &Self::Reason,
				_who: &AccountId,
				_amount: Self::Balance,
				_precision: Precision,
			) -> Result<Self::Balance, DispatchError> {
				gap(Err(DispatchError::Unavailable))
			}
			fn set_on_hold(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) -> DispatchResult {
				gap(Err(DispatchError::Unavailable))
			}
			fn burn_held(
				_asset: Self::AssetId,
				_reason: &Self::Reason,
				_who: &AccountId,
				_amount: Self::Balance,
				_precision: Precision,
				_force: Fortitude,
			) -> Result<Self::Balance, DispatchError> {
				gap(Err(DispatchError::Unavailable))
			}
			#[allow(clippy::too_many_arguments)]
			fn transfer_on_hold(
				_asset: Self::AssetId,
				_reason: &Self::Reason,
				_source: &AccountId,
				_dest: &AccountId,
				_amount: Self::Balance,
				_precision: Precision,
				_mode: Restriction,
				_force: Fortitude,
			) -> Result<Self::Balance, DispatchError> {
				gap(Err(DispatchError::Unavailable))
			}
			#[allow(clippy::too_many_arguments)]
			fn transfer_and_hold(
				_asset: Self::AssetId,
				_reason: &Self::Reason,
				_source: &AccountId,
				_dest: &AccountId,
				_amount: Self::Balance,
				_precision: Precision,
				_expendability: Preservation,
				_force: Fortitude,
			) -> Result<Self::Balance, DispatchError> {
				gap(Err(DispatchError::Unavailable))
			}
		}
	}
	pub mod freeze {
		use super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			type Id: Encode + TypeInfo + 'static;
			fn balance_frozen(_asset: Self::AssetId, _id: &Self::Id, _who: &AccountId) -> Self::Balance {
				gap(Default::default())
			}
			fn balance_freezable(_asset: Self::AssetId, _who: &AccountId) -> Self::Balance {
				gap(Default::default())
			}
			fn can_freeze(_asset: Self::AssetId, _id: &Self::Id, _who: &AccountId) -> bool {
				gap(true)
			}
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn set_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
			fn extend_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
			fn thaw(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> DispatchResult;
			fn set_frozen(
				asset: Self::AssetId,
				id: &Self::Id,
				who: &AccountId,
				amount: Self::Balance,
				fortitude: Fortitude,
			) -> DispatchResult {
				let force = fortitude == Fortitude::Force;
				if !(force || Self::balance_freezable(asset.clone(), who) >= amount) {
					return Err(TokenError::FundsUnavailable.into());
				}
				Self::set_freeze(asset, id, who, amount)
			}
			fn ensure_frozen(
				asset: Self::AssetId,
				id: &Self::Id,
				who: &AccountId,
				amount: Self::Balance,
				fortitude: Fortitude,
			) -> DispatchResult {
				let force = fortitude == Fortitude::Force;
				if !(force || Self::balance_freezable(asset.clone(), who) >= amount) {
					return Err(TokenError::FundsUnavailable.into());
				}
				Self::extend_freeze(asset, id, who, amount)
			}
		}
	}
	pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
	pub use hold::{Inspect as InspectHold, Mutate as MutateHold};
}

pub mod fungible {
	use super::*;
	pub trait Inspect<AccountId>: Sized {
		type Balance: Balance;
		fn total_issuance() -> Self::Balance {
			gap(Default::default())
		}
		fn active_issuance() -> Self::Balance {
			Self::total_issuance()
		}
		fn minimum_balance() -> Self::Balance {
			gap(Default::default())
		}
		fn total_balance(_who: &AccountId) -> Self::Balance {
			gap(Default::default())
		}
		fn balance(_who: &AccountId) -> Self::Balance {
			gap(Default::default())
		}
		fn reducible_balance(_who: &AccountId, _p: Preservation, _f: Fortitude) -> Self::Balance {
			gap(Default::default())
		}
		fn can_deposit(_who: &AccountId, _amount: Self::Balance, _p: Provenance) -> DepositConsequence {
			gap(DepositConsequence::Success)
		}
		fn can_withdraw(_who: &AccountId, _amount: Self::Balance) -> WithdrawConsequence<Self::Balance> {
			gap(WithdrawConsequence::Success)
		}
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {}
	pub trait Balanced<AccountId>: Inspect<AccountId> {
		type OnDropDebt;
		type OnDropCredit;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn mint_into(_who: &AccountId, _amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
			gap(Err(DispatchError::Unavailable))
		}
		fn burn_from(
			_who: &AccountId,
			_amount: Self::Balance,
			_preservation: Preservation,
			_precision: Precision,
			_force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			gap(Err(DispatchError::Unavailable))
		}
		fn transfer(
			_source: &AccountId,
			_dest: &AccountId,
			_amount: Self::Balance,
			_preservation: Preservation,
		) -> Result<Self::Balance, DispatchError> {
			gap(Err(DispatchError::Unavailable))
		}
	}
	pub mod hold {
		use super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			type Reason: Encode + TypeInfo + 'static;
			fn balance_on_hold(_reason: &Self::Reason, _who: &AccountId) -> Self::Balance {
				gap(Default::default())
			}
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn hold(_reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) -> DispatchResult {
				gap(Err(DispatchError::Unavailable))
			}
			fn release(
				_reason: &Self::Reason,
				_who: &AccountId,
				_amount: Self::Balance,
				_precision: Precision,
			) -> Result<Self::Balance, DispatchError> {
				gap(Err(DispatchError::Unavailable))
			}
		}
	}
	pub mod freeze {
		use super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			type Id: Encode + TypeInfo + 'static;
			fn balance_frozen(_id: &Self::Id, _who: &AccountId) -> Self::Balance {
				gap(Default::default())
			}
			fn balance_freezable(_who: &AccountId) -> Self::Balance {
				gap(Default::default())
			}
			fn can_freeze(_id: &Self::Id, _who: &AccountId) -> bool {
				gap(true)
			}
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn set_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
			fn extend_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
			fn thaw(id: &Self::Id, who: &AccountId) -> DispatchResult;
			fn set_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
				let force = fortitude == Fortitude::Force;
				if !(force || Self::balance_freezable(who) >= amount) {
					return Err(TokenError::FundsUnavailable.into());
				}
				Self::set_freeze(id, who, amount)
			}
			fn ensure_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
				let force = fortitude == Fortitude::Force;
				if !(force || Self::balance_freezable(who) >= amount) {
					return Err(TokenError::FundsUnavailable.into());
				}
				Self::extend_freeze(id, who, amount)
			}
			fn increase_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
				let a = Self::balance_frozen(id, who).checked_add(&amount).ok_or(DispatchError::Unavailable)?;
				Self::set_frozen(id, who, a, Fortitude::Polite)
			}
			fn decrease_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
				let a = Self::balance_frozen(id, who).checked_sub(&amount).ok_or(DispatchError::Unavailable)?;
				Self::set_frozen(id, who, a, Fortitude::Polite)
			}
		}
	}
	pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
	pub use hold::{Inspect as InspectHold, Mutate as MutateHold};
	pub struct HoldConsideration<A, F, R, D, Fp = ()>(core::marker::PhantomData<(A, F, R, D, Fp)>);
	pub struct Credit<A, B>(core::marker::PhantomData<(A, B)>);
	pub struct NativeFromLeft;
	pub struct NativeOrWithId<A>(core::marker::PhantomData<A>);
	pub struct UnionOf<L, R, C, A, X>(core::marker::PhantomData<(L, R, C, A, X)>);
	pub struct ItemOf<F, A, X>(core::marker::PhantomData<(F, A, X)>);
}

pub mod nonfungibles_v2 {
	use super::*;
	pub trait Inspect<AccountId> {
		type ItemId: crate::Parameter;
		type CollectionId: crate::Parameter;
		fn owner(_c: &Self::CollectionId, _i: &Self::ItemId) -> Option<AccountId> {
			gap(None)
		}
		fn collection_owner(_c: &Self::CollectionId) -> Option<AccountId> {
			gap(None)
		}
	}
	pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {}
	pub trait Create<AccountId, CollectionConfig>: Inspect<AccountId> {
		fn create_collection(who: &AccountId, admin: &AccountId, config: &CollectionConfig) -> Result<Self::CollectionId, DispatchError>;
		fn create_collection_with_id(
			collection: Self::CollectionId,
			who: &AccountId,
			admin: &AccountId,
			config: &CollectionConfig,
		) -> Result<(), DispatchError>;
	}
	pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
		fn mint_into(
			collection: &Self::CollectionId,
			item: &Self::ItemId,
			who: &AccountId,
			config: &ItemConfig,
			deposit_collection_owner: bool,
		) -> DispatchResult;
		fn burn(_c: &Self::CollectionId, _i: &Self::ItemId, _o: Option<&AccountId>) -> DispatchResult {
			gap(Err(DispatchError::Unavailable))
		}
	}
	pub trait Transfer<AccountId>: Inspect<AccountId> {}
	pub trait Trading<AccountId, ItemPrice>: Inspect<AccountId> {
		fn buy_item(
			_collection: &Self::CollectionId,
			_item: &Self::ItemId,
			_buyer: &AccountId,
			_bid_price: &ItemPrice,
		) -> DispatchResult {
			gap(Err(DispatchError::Unavailable))
		}
		fn set_price(
			collection: &Self::CollectionId,
			item: &Self::ItemId,
			sender: &AccountId,
			price: Option<ItemPrice>,
			whitelisted_buyer: Option<AccountId>,
		) -> DispatchResult;
		fn item_price(_collection: &Self::CollectionId, _item: &Self::ItemId) -> Option<ItemPrice> {
			gap(None)
		}
	}
}
pub mod nonfungible_v2 {
	pub struct ItemOf<F, A, X>(core::marker::PhantomData<(F, A, X)>);
}
pub mod asset_ops {}
pub mod imbalance {
	pub struct ResolveTo<A, B>(core::marker::PhantomData<(A, B)>);
	pub struct ResolveAssetTo<A, B>(core::marker::PhantomData<(A, B)>);
}
pub mod pay {
	pub struct PayFromAccount<A, B>(core::marker::PhantomData<(A, B)>);
	pub struct PayAssetFromAccount<A, B>(core::marker::PhantomData<(A, B)>);
}
pub use pay::*;
pub struct UnityAssetBalanceConversion;
pub trait ConversionToAssetBalance<In, AssetId, Out> {
	type Error;
	fn to_asset_balance(balance: In, asset_id: AssetId) -> Result<Out, Self::Error>;
}
pub trait ConversionFromAssetBalance<In, AssetId, Out> {
	type Error;
	fn from_asset_balance(balance: In, asset_id: AssetId) -> Result<Out, Self::Error>;
}
