//! Types of pallet-referenda the code under proof refers to; no behaviour.
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use frame_support::{
	traits::{fungible, OriginTrait, PollStatus, Polling},
	Parameter,
};
use sp_runtime::{Cow, DispatchError, FixedI64, Perbill};

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum Curve {
	LinearDecreasing { length: Perbill, floor: Perbill, ceil: Perbill },
	SteppedDecreasing { begin: Perbill, end: Perbill, step: Perbill, period: Perbill },
	Reciprocal { factor: FixedI64, x_offset: FixedI64, y_offset: FixedI64 },
}
const fn frac(x: u128, y: u128) -> u128 {
	x * 1_000_000_000 / y
}
impl Curve {
	pub const fn make_linear(length: u128, period: u128, floor: FixedI64, ceil: FixedI64) -> Curve {
		Curve::LinearDecreasing {
			length: Perbill::from_parts(frac(length, period) as u32),
			floor: Perbill::from_parts(floor.into_inner() as u32),
			ceil: Perbill::from_parts(ceil.into_inner() as u32),
		}
	}
	/// Only the kind of curve is kept.
	pub const fn make_reciprocal(_delay: u128, _period: u128, level: FixedI64, floor: FixedI64, ceil: FixedI64) -> Curve {
		Curve::Reciprocal { factor: level, x_offset: floor, y_offset: ceil }
	}
}

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct TrackInfo<Balance, Moment> {
	pub name: [u8; 25],
	pub max_deciding: u32,
	pub decision_deposit: Balance,
	pub prepare_period: Moment,
	pub decision_period: Moment,
	pub confirm_period: Moment,
	pub min_enactment_period: Moment,
	pub min_approval: Curve,
	pub min_support: Curve,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Track<Id, Balance, Moment> {
	pub id: Id,
	pub info: TrackInfo<Balance, Moment>,
}
pub trait TracksInfo<Balance: Clone + 'static, Moment: Clone + 'static> {
	type Id: Copy + Eq + Ord + MaxEncodedLen + 'static;
	type RuntimeOrigin;
	fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, Balance, Moment>>> {
		nd::model_gap!(false, "list of tracks");
		core::iter::empty()
	}
	fn track_for(_origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()> {
		nd::model_gap!(false, "track of an origin");
		Err(())
	}
}
#[macro_export]
macro_rules! impl_tracksinfo_get {
	( $( $t:tt )* ) => {};
}

frame_support::model_pallet_instance! {
	@items [submit place_decision_deposit refund_decision_deposit cancel kill nudge_referendum one_fewer_deciding refund_submission_deposit set_metadata]
}
pub use frame_support::instances::{Instance1, Instance2};
pub trait Config<I: 'static = ()>: frame_system::Config {
	type WeightInfo;
	type RuntimeCall;
	type RuntimeEvent;
	type Scheduler;
	type Currency: fungible::Inspect<Self::AccountId>;
	type SubmitOrigin;
	type CancelOrigin;
	type KillOrigin;
	type Slash;
	type Votes;
	type Tally;
	type SubmissionDeposit;
	type MaxQueued;
	type UndecidingTimeout;
	type AlarmInterval;
	type Tracks: TracksInfo<BalanceOf<Self, I>, <Self as frame_system::Config>::BlockNumber>;
	type Preimages;
}
pub type BalanceOf<T, I = ()> = <<T as Config<I>>::Currency as fungible::Inspect<<T as frame_system::Config>::AccountId>>::Balance;
pub type PalletsOriginOf<T> = <<T as frame_system::Config>::RuntimeOrigin as OriginTrait>::PalletsOrigin;
pub type TrackIdOf<T, I = ()> =
	<<T as Config<I>>::Tracks as TracksInfo<BalanceOf<T, I>, <T as frame_system::Config>::BlockNumber>>::Id;
impl<T: Config<I>, I: 'static> Polling<T::Tally> for Pallet<T, I>
where
	T::Votes: Ord + Copy,
	TrackIdOf<T, I>: Parameter,
{
	type Index = u32;
	type Votes = T::Votes;
	type Class = TrackIdOf<T, I>;
	type Moment = T::BlockNumber;
	fn classes() -> Vec<Self::Class> {
		nd::model_gap!(false, "referenda");
		Vec::new()
	}
	fn as_ongoing(_: u32) -> Option<(T::Tally, Self::Class)> {
		nd::model_gap!(false, "referenda");
		None
	}
	fn access_poll<R>(_: u32, f: impl FnOnce(PollStatus<&mut T::Tally, Self::Moment, Self::Class>) -> R) -> R {
		nd::model_gap!(false, "referenda");
		f(PollStatus::None)
	}
	fn try_access_poll<R>(
		_: u32,
		f: impl FnOnce(PollStatus<&mut T::Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError> {
		nd::model_gap!(false, "referenda");
		f(PollStatus::None)
	}
}
