From d36f9ab82a258094834307ae998d8994b8d4fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 01/15] fix: refuse malformed payment id texts instead of
 panicking or zero-filling

Parsing a text whose dash-separated parts are longer than 12 bytes panicked.
A text that decodes to fewer than eight bytes was silently zero-filled, so
many texts named the same payment id.
---
 common/src/payment_id.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index 471a430..65ade40 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -100,13 +100,18 @@ impl core::str::FromStr for PaymentId {
 		let mut input = s;
 		if let Some((p1, p2)) = s.split_once('-') {
 			let len_without_sep = p1.len() + p2.len();
-			debug_assert!(len_without_sep <= 12);
+			if len_without_sep > tmp.len() {
+				return Err(());
+			}
 			tmp[..p1.len()].copy_from_slice(p1.as_bytes());
 			tmp[p1.len()..len_without_sep].copy_from_slice(p2.as_bytes());
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
 		};
 		let mut out = [0u8; 8];
-		let _ = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		let len = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		if len != out.len() {
+			return Err(());
+		}
 		Ok(u64::from_le_bytes(out).into())
 	}
 }
-- 
2.43.0


From 43c632e6aa8705dddca84ae8cbe8fa2a022572cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 02/15] fix: do not panic on a local asset location with an
 index above u32

A location (0, [PalletInstance(13), GeneralIndex(n)]) can arrive from another
chain with any u128 index. The conversion now yields None for indices that are
not local asset ids.
---
 common/src/multilocation_asset_id.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/src/multilocation_asset_id.rs b/common/src/multilocation_asset_id.rs
index f6ac03c..d22b12f 100644
--- a/common/src/multilocation_asset_id.rs
+++ b/common/src/multilocation_asset_id.rs
@@ -106,11 +106,9 @@ pub mod runtime {
 						index: (*index).try_into().ok()?,
 					}))
 				}
-				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(
-					(*index)
-						.try_into()
-						.expect("as it is here, we the types will match; qed"),
-				)),
+				(0, [PalletInstance(13), GeneralIndex(index)]) => {
+					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
+				}
 				_ => None,
 			}
 		}
-- 
2.43.0


From 8b0c86f98a49ae2d9ca4e5b33f4d6dce16321b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:05 +0000
Subject: [PATCH 03/15] fix: payments: accept_and_pay only settles pending
 payment requests

It paid out any stored payment of the caller, whatever its state. A finished
payment could be paid again, and accepting an escrowed one left its holds
behind forever.
---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 622130d..258bd52 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -361,6 +361,10 @@ pub mod pallet {
 
 			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
+				ensure!(
+					payment.state == PaymentState::PaymentRequested,
+					Error::<T>::InvalidAction
+				);
 				const IS_DISPUTE: bool = false;
 
 				// Release sender fees recipients
-- 
2.43.0


From 49097e5da7229eaad9081bcd0632dc347be19ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:05 +0000
Subject: [PATCH 04/15] fix: payments: never redirect a payment id that belongs
 to another payer

Only payments of the same payer were checked for a clash. With an id already
used by another payer the index entry was overwritten, so their payment could
no longer be cancelled, disputed or resolved.
---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 258bd52..ccd7302 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -528,6 +528,10 @@ impl<T: Config> Pallet<T> {
 		remark: Option<&[u8]>,
 	) -> Result<(T::PaymentId, PaymentDetail<T>), DispatchError> {
 		let payment_id = T::PaymentId::next(sender, &beneficiary).ok_or(Error::<T>::NoPaymentIdAvailable)?;
+		// an id in use by another payer must keep pointing at their payment
+		if let Ok((payer, _)) = PaymentParties::<T>::get(payment_id) {
+			ensure!(payer == *sender, Error::<T>::PaymentAlreadyInProcess);
+		}
 		Payment::<T>::try_mutate(sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 			if let Ok(payment) = maybe_payment {
 				ensure!(
-- 
2.43.0


From 1be70c307fe414089ad6df755df46e6a50b3e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:05 +0000
Subject: [PATCH 05/15] fix: payments: keep dispute fees apart from other fees
 of the same receiver

Fees were merged per receiver and the merged fee took the dispute flag of the
first one. A receiver with one fee of each kind got both or neither when a
dispute was resolved.
---
 pallets/payments/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/payments/src/types.rs b/pallets/payments/src/types.rs
index ed76fc1..aac3dbe 100644
--- a/pallets/payments/src/types.rs
+++ b/pallets/payments/src/types.rs
@@ -117,7 +117,7 @@ impl<T: pallet::Config> Fees<T> {
 	}
 
 	fn get_summary(fees: &FeeDetails<T>, is_dispute: bool) -> Result<FeesSummaryForRole<T>, DispatchError> {
-		let mut fees_per_account: BTreeMap<AccountIdOf<T>, Fee<T>> = BTreeMap::new();
+		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, ChargableOnDisputes), Fee<T>> = BTreeMap::new();
 		let mut total_to_discount: BalanceOf<T> = Zero::zero();
 		let mut total_to_return: BalanceOf<T> = Zero::zero();
 
@@ -133,7 +133,7 @@ impl<T: pallet::Config> Fees<T> {
 			}
 
 			let current_fee = fees_per_account
-				.entry(account.clone())
+				.entry((account.clone(), *charge_dispute))
 				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
 			let (_, current_balance, _) = current_fee;
 			*current_balance = current_balance.saturating_add(*fee);
-- 
2.43.0


From f64eaedbdc9750c6f7b3fbb80861bc9047c5a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:50 +0000
Subject: [PATCH 06/15] fix: communities: report the new rank when demoting a
 member

The event of a demotion carried the rank held before the call.
---
 pallets/communities/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2e92945..4bf1987 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -474,8 +474,10 @@ pub mod pallet {
 		pub fn demote(origin: OriginFor<T>, membership_id: MembershipIdOf<T>) -> DispatchResult {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 
-			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id).ok_or(Error::<T>::NotAMember)?;
-			T::MemberMgmt::set_rank(&community_id, &membership_id, rank.demote_by(ONE))?;
+			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)
+				.ok_or(Error::<T>::NotAMember)?
+				.demote_by(ONE);
+			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
 
 			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
 			Ok(())
-- 
2.43.0


From dcd8f30a75f0c4e3b6ce0ea5a2aca1a5480308d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:50 +0000
Subject: [PATCH 07/15] fix: communities: set_decision_method only for the
 admin of that community

The call checked that the origin administers some community, but not that
it is the community whose decision method is being changed.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 4bf1987..b5a4dd2 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -492,7 +492,10 @@ pub mod pallet {
 			community_id: T::CommunityId,
 			decision_method: DecisionMethodFor<T>,
 		) -> DispatchResult {
-			T::AdminOrigin::ensure_origin(origin)?;
+			ensure!(
+				T::AdminOrigin::ensure_origin(origin)? == community_id,
+				DispatchError::BadOrigin
+			);
 			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {
 				// best effort attemt to create the asset if it doesn't exist
 				let _ = <T::Assets as fungibles::Create<T::AccountId>>::create(
-- 
2.43.0


From 228bf7a3c785ff8134d7f75f37a934ebbe40efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:50 +0000
Subject: [PATCH 08/15] fix: communities: refuse a new admin that already
 controls a community

Handing a community over to an origin that administers another community
left that other community without an admin.
---
 pallets/communities/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index b5a4dd2..a063e11 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -402,6 +402,10 @@ pub mod pallet {
 			);
 
 			CommunityIdFor::<T>::remove(origin.caller());
+			ensure!(
+				!CommunityIdFor::<T>::contains_key(&admin_origin),
+				Error::<T>::AlreadyAdmin
+			);
 			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);
 
 			Self::deposit_event(Event::AdminOriginSet {
-- 
2.43.0


From c371865b6c19ef1596b4c4dadac727e873f94682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:50 +0000
Subject: [PATCH 09/15] fix: communities: remove_member only releases a
 membership of that member

The membership released was not checked to belong to the named member, so
removing one member could release the membership of another.
---
 pallets/communities/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index a063e11..5cbec43 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -452,6 +452,10 @@ pub mod pallet {
 			let who = T::Lookup::lookup(who)?;
 
 			ensure!(T::MemberMgmt::is_member_of(&community_id, &who), Error::<T>::NotAMember);
+			ensure!(
+				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
+				Error::<T>::NotAMember
+			);
 
 			T::MemberMgmt::release(&community_id, &membership_id)?;
 
-- 
2.43.0


From d9823b421b5c756df5e95074edc001203e02e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:50 +0000
Subject: [PATCH 10/15] fix: communities: compute the approval without
 overflowing

The sum of ayes and nays may exceed the vote weight type.
---
 pallets/communities/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/impls.rs b/pallets/communities/src/impls.rs
index eea66f1..e7997f0 100644
--- a/pallets/communities/src/impls.rs
+++ b/pallets/communities/src/impls.rs
@@ -20,7 +20,8 @@ impl<T: Config> VoteTally<VoteWeight, CommunityIdOf<T>> for Tally<T> {
 	}
 
 	fn approval(&self, _cid: CommunityIdOf<T>) -> sp_runtime::Perbill {
-		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
+		let (ayes, nays) = (u64::from(self.ayes), u64::from(self.nays));
+		Perbill::from_rational(ayes, 1.max(ayes + nays))
 	}
 
 	#[cfg(feature = "runtime-benchmarks")]
-- 
2.43.0


From 85f642e5964df5ea7dbcf3cc9c2906c0a451e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:50 +0000
Subject: [PATCH 11/15] fix: communities-manager: count the last membership of
 the id range

When the id range ended the membership just minted was left out of the
amount reported.
---
 pallets/communities-manager/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities-manager/src/lib.rs b/pallets/communities-manager/src/lib.rs
index 7f6e394..f3ac153 100644
--- a/pallets/communities-manager/src/lib.rs
+++ b/pallets/communities-manager/src/lib.rs
@@ -218,9 +218,9 @@ pub mod pallet {
 					Some(price),
 					None,
 				)?;
+				minted += 1;
 				if let Some(next_id) = id.increment() {
 					id = next_id;
-					minted += 1;
 				} else {
 					break;
 				}
-- 
2.43.0


From 7f636b72c6b612755f7beeeabe83177824d18d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:53 +0000
Subject: [PATCH 12/15] fix: kreivo: refuse sign-in challenges for blocks
 without a hash

---
 runtime/kreivo/src/configuration/system_support.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/configuration/system_support.rs b/runtime/kreivo/src/configuration/system_support.rs
index 0f1081f..fc4c6fe 100644
--- a/runtime/kreivo/src/configuration/system_support.rs
+++ b/runtime/kreivo/src/configuration/system_support.rs
@@ -142,7 +142,9 @@ impl Challenger for UnincludedBlockHashChallenger {
 	}
 
 	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
-		(*cx >= System::block_number().saturating_sub(3)).then_some(())?;
+		let now = System::block_number();
+		// The current and later blocks have no hash yet: they would read as the (guessable) default hash
+		(*cx < now && *cx >= now.saturating_sub(3)).then_some(())?;
 		Self::generate(cx).eq(challenge).then_some(())
 	}
 }
-- 
2.43.0


From 660e3916f6597430c97cecd6419888af2a2afbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:53 +0000
Subject: [PATCH 13/15] fix: kreivo: only treat sub-accounts of the communities
 pallet as communities

---
 runtime/kreivo/src/communities/mod.rs        | 5 ++++-
 runtime/kreivo/src/xcm_config/communities.rs | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtime/kreivo/src/communities/mod.rs b/runtime/kreivo/src/communities/mod.rs
index e393790..5419223 100644
--- a/runtime/kreivo/src/communities/mod.rs
+++ b/runtime/kreivo/src/communities/mod.rs
@@ -46,7 +46,10 @@ parameter_types! {
 
 morph_types! {
 	pub type AccountToCommunityId: TryMorph = |a: AccountId| -> Result<CommunityId, ()> {
-		PalletId::try_from_sub_account(&a).map(|(_, id)| id).ok_or(())
+		match PalletId::try_from_sub_account(&a) {
+			Some((pallet_id, id)) if pallet_id == CommunityPalletId::get() => Ok(id),
+			_ => Err(()),
+		}
 	};
 }
 type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;
diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7410bc8..deb2a0e 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -52,8 +52,9 @@ where
 		let Some(account_id) = o.clone().into_signer() else {
 			return Err(o.clone());
 		};
-		let Some((_, community_id)) = PalletId::try_from_sub_account(&account_id) else {
-			return Err(o.clone());
+		let community_id = match PalletId::try_from_sub_account(&account_id) {
+			Some((pallet_id, community_id)) if pallet_id == T::PalletId::get() => community_id,
+			_ => return Err(o.clone()),
 		};
 		let origin = pallet_communities::Origin::<T>::new(community_id);
 		let j = Junction::try_from(origin).map_err(|_| o)?;
-- 
2.43.0


From 094ae82e2c260b887f23b48dd8f626970ebdd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:53 +0000
Subject: [PATCH 14/15] fix: kreivo: accept reserve assets only from the chain
 that is their reserve

---
 runtime/kreivo/src/xcm_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config.rs b/runtime/kreivo/src/xcm_config.rs
index b2c2b44..0b26548 100644
--- a/runtime/kreivo/src/xcm_config.rs
+++ b/runtime/kreivo/src/xcm_config.rs
@@ -185,9 +185,9 @@ fn matches_prefix(prefix: &Location, loc: &Location) -> bool {
 }
 pub struct ReserveAssetsFrom<T>(PhantomData<T>);
 impl<Prefix: Get<Location>> ContainsPair<Asset, Location> for ReserveAssetsFrom<Prefix> {
-	fn contains(asset: &Asset, _origin: &Location) -> bool {
-		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), _origin);
-		matches_prefix(&Prefix::get(), &asset.id.0)
+	fn contains(asset: &Asset, origin: &Location) -> bool {
+		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), origin);
+		&Prefix::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)
 	}
 }
 pub struct ReserveForeignAssetsFrom<P, R>(PhantomData<(P, R)>);
-- 
2.43.0


From e134861b4c573d4d45318c032457a20421dcba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:53 +0000
Subject: [PATCH 15/15] fix: kreivo: map no account to body ids beyond the
 community ids

---
 runtime/kreivo/src/xcm_config/communities.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index deb2a0e..4fb8364 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -4,10 +4,7 @@ use crate::Communities;
 use core::marker::PhantomData;
 use frame_support::{traits::OriginTrait, PalletId};
 use pallet_communities::AccountIdOf;
-use sp_runtime::{
-	traits::{AccountIdConversion, TryConvert},
-	SaturatedConversion,
-};
+use sp_runtime::traits::{AccountIdConversion, TryConvert};
 use xcm::latest::{BodyId, Junction, Junction::Plurality, Location};
 use xcm_executor::traits::ConvertLocation;
 
@@ -20,7 +17,7 @@ impl ConvertLocation<AccountId> for PluralityConvertsToCommunityAccountId {
 				[Plurality {
 					id: BodyId::Index(id), ..
 				}],
-			) => Some(Communities::community_account(&(*id).saturated_into())),
+			) => Some(Communities::community_account(&(*id).try_into().ok()?)),
 			_ => None,
 		}
 	}
-- 
2.43.0

