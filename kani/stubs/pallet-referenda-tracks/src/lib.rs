//! pallet-referenda-tracks: which track an origin belongs to, as the harness says.
frame_support::model_pallet_instance! {
	[RuntimeEvent TrackId MaxTracks AdminOrigin UpdateOrigin WeightInfo]
	[insert update remove]
}
use frame_support::{storage::Slot, traits::OriginTrait};
use fc_traits_tracks::MutateTracks;
use pallet_referenda::{Track, TrackInfo, TracksInfo};
use sp_runtime::{Cow, DispatchResult};

type PalletsOriginOf<T> = <<T as frame_system::Config>::RuntimeOrigin as OriginTrait>::PalletsOrigin;
/// At most one origin that has a track, and its track.
pub struct Known<O, Id>(pub Option<(O, Id)>);
impl<O, Id> Default for Known<O, Id> {
	fn default() -> Self {
		Known(None)
	}
}
static mut KNOWN: Slot = Slot::new();
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn known() -> &'static mut Known<PalletsOriginOf<T>, T::TrackId> {
		Slot::cell::<Known<PalletsOriginOf<T>, T::TrackId>>(core::ptr::addr_of_mut!(KNOWN))
	}
	pub fn install(at: *mut Known<PalletsOriginOf<T>, T::TrackId>) {
		Slot::install(core::ptr::addr_of_mut!(KNOWN), at)
	}
}
impl<T: Config<I>, I: 'static, B: Clone + 'static, M: Clone + 'static> TracksInfo<B, M> for Pallet<T, I>
where
	T::TrackId: Copy + Eq + Ord + parity_scale_codec::MaxEncodedLen + 'static,
{
	type Id = T::TrackId;
	type RuntimeOrigin = PalletsOriginOf<T>;
	fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, B, M>>> {
		nd::model_gap!(false, "community tracks");
		core::iter::empty()
	}
	fn track_for(o: &Self::RuntimeOrigin) -> Result<Self::Id, ()> {
		match &Self::known().0 {
			Some((k, id)) if k == o => Ok(*id),
			_ => Err(()),
		}
	}
}
impl<T: Config<I>, I: 'static> Pallet<T, I>
where
	T::TrackId: Copy + Eq + Ord + parity_scale_codec::MaxEncodedLen + 'static,
{
	pub fn track_for(o: &PalletsOriginOf<T>) -> Result<T::TrackId, ()> {
		<Self as TracksInfo<u128, u32>>::track_for(o)
	}
}
impl<T: Config<I>, I: 'static, B, M> MutateTracks<B, M> for Pallet<T, I>
where
	T::TrackId: Copy + parity_scale_codec::MaxEncodedLen,
{
	type Id = T::TrackId;
	type RuntimeOrigin = PalletsOriginOf<T>;
	fn insert(_: Self::Id, _: TrackInfo<B, M>, _: Self::RuntimeOrigin) -> DispatchResult {
		nd::model_gap!(false, "community tracks");
		Ok(())
	}
	fn update(_: Self::Id, _: TrackInfo<B, M>) -> DispatchResult {
		nd::model_gap!(false, "community tracks");
		Ok(())
	}
	fn remove(_: Self::Id, _: Self::RuntimeOrigin) -> DispatchResult {
		nd::model_gap!(false, "community tracks");
		Ok(())
	}
}
