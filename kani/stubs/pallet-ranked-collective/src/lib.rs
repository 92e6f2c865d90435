//! pallet-ranked-collective as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet_instance! {
	[WeightInfo RuntimeEvent AddOrigin PromoteOrigin RemoveOrigin DemoteOrigin ExchangeOrigin MemberSwappedHandler Polls MinRankOfClass MaxMemberCount VoteWeight]
	[add_member promote_member demote_member remove_member vote cleanup_poll exchange_member]
}

use sp_runtime::DispatchResult;
pub type Rank = u16;
pub type Votes = u32;
pub struct TallyOf<T, I = ()>(PhantomData<(T, I)>);
pub struct Linear;
impl<T: Config<I>, I: 'static> frame_support::traits::RankedMembers for Pallet<T, I> {
	type AccountId = T::AccountId;
	type Rank = Rank;
	fn induct(_: &T::AccountId) -> DispatchResult {
		nd::model_gap!(false, "collective");
		Ok(())
	}
}
