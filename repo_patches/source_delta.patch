From c9a9bf6532c4b8e3ab7b1ec6cf62f3601081391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:37 +0000
Subject: [PATCH 01/19] fix: reject overlong dashed payment ids instead of
 panicking

---
 common/src/payment_id.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index 471a430..fef0a68 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -100,7 +100,9 @@ impl core::str::FromStr for PaymentId {
 		let mut input = s;
 		if let Some((p1, p2)) = s.split_once('-') {
 			let len_without_sep = p1.len() + p2.len();
-			debug_assert!(len_without_sep <= 12);
+			if len_without_sep > tmp.len() {
+				return Err(());
+			}
 			tmp[..p1.len()].copy_from_slice(p1.as_bytes());
 			tmp[p1.len()..len_without_sep].copy_from_slice(p2.as_bytes());
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
-- 
2.43.0


From 0fa2b676ffb949409ad75620423cf764d93bdd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:37 +0000
Subject: [PATCH 02/19] fix: reject payment id text that does not decode to
 eight bytes

---
 common/src/payment_id.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index fef0a68..65ade40 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -108,7 +108,10 @@ impl core::str::FromStr for PaymentId {
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
 		};
 		let mut out = [0u8; 8];
-		let _ = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		let len = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		if len != out.len() {
+			return Err(());
+		}
 		Ok(u64::from_le_bytes(out).into())
 	}
 }
-- 
2.43.0


From f50a685b432cbf878486d3401490fe0cd0228b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:37 +0000
Subject: [PATCH 03/19] fix: ignore local asset locations whose index does not
 fit an asset id

---
 common/src/multilocation_asset_id.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/src/multilocation_asset_id.rs b/common/src/multilocation_asset_id.rs
index f6ac03c..d22b12f 100644
--- a/common/src/multilocation_asset_id.rs
+++ b/common/src/multilocation_asset_id.rs
@@ -106,11 +106,9 @@ pub mod runtime {
 						index: (*index).try_into().ok()?,
 					}))
 				}
-				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(
-					(*index)
-						.try_into()
-						.expect("as it is here, we the types will match; qed"),
-				)),
+				(0, [PalletInstance(13), GeneralIndex(index)]) => {
+					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
+				}
 				_ => None,
 			}
 		}
-- 
2.43.0


From caf89f4f5dae1bda53a05d72b616b94ab8539166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:57 +0000
Subject: [PATCH 04/19] fix: accept and pay only payments that are still
 requested

---
 pallets/payments/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 622130d..261a1ce 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -361,6 +361,11 @@ pub mod pallet {
 
 			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
+				// only requested payments that are still pending can be accepted
+				ensure!(
+					payment.state == PaymentState::PaymentRequested,
+					Error::<T>::InvalidAction
+				);
 				const IS_DISPUTE: bool = false;
 
 				// Release sender fees recipients
-- 
2.43.0


From 021cd44f8fdacd140f226d38bdca1b50b1014485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:57 +0000
Subject: [PATCH 05/19] fix: refuse payment identifiers in use by other parties

---
 pallets/payments/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 261a1ce..a08f3ea 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -536,6 +536,13 @@ impl<T: Config> Pallet<T> {
 					Error::<T>::PaymentAlreadyInProcess
 				);
 			}
+			// an identifier keeps belonging to the parties it was first assigned to
+			if let Ok((s, b)) = PaymentParties::<T>::get(payment_id) {
+				ensure!(
+					&s == sender && b == beneficiary,
+					Error::<T>::PaymentAlreadyInProcess
+				);
+			}
 
 			let incentive_amount = incentive_percentage.mul_floor(amount);
 
-- 
2.43.0


From c5548fe1a5a97c9aec46dca24962a54f5bbae1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:57 +0000
Subject: [PATCH 06/19] fix: keep mandatory and optional fees of one recipient
 apart

---
 pallets/payments/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/payments/src/types.rs b/pallets/payments/src/types.rs
index ed76fc1..aac3dbe 100644
--- a/pallets/payments/src/types.rs
+++ b/pallets/payments/src/types.rs
@@ -117,7 +117,7 @@ impl<T: pallet::Config> Fees<T> {
 	}
 
 	fn get_summary(fees: &FeeDetails<T>, is_dispute: bool) -> Result<FeesSummaryForRole<T>, DispatchError> {
-		let mut fees_per_account: BTreeMap<AccountIdOf<T>, Fee<T>> = BTreeMap::new();
+		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, ChargableOnDisputes), Fee<T>> = BTreeMap::new();
 		let mut total_to_discount: BalanceOf<T> = Zero::zero();
 		let mut total_to_return: BalanceOf<T> = Zero::zero();
 
@@ -133,7 +133,7 @@ impl<T: pallet::Config> Fees<T> {
 			}
 
 			let current_fee = fees_per_account
-				.entry(account.clone())
+				.entry((account.clone(), *charge_dispute))
 				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
 			let (_, current_balance, _) = current_fee;
 			*current_balance = current_balance.saturating_add(*fee);
-- 
2.43.0


From 08d99eceacdf7cc0034221fc32f478cb713b3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:20 +0000
Subject: [PATCH 07/19] fix: let administrators set the decision method of
 their own community only

set_decision_method checked that the caller administers some community,
but then changed whichever community the caller named.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2e92945..2150c88 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -490,7 +490,10 @@ pub mod pallet {
 			community_id: T::CommunityId,
 			decision_method: DecisionMethodFor<T>,
 		) -> DispatchResult {
-			T::AdminOrigin::ensure_origin(origin)?;
+			ensure!(
+				T::AdminOrigin::ensure_origin(origin)? == community_id,
+				DispatchError::BadOrigin
+			);
 			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {
 				// best effort attemt to create the asset if it doesn't exist
 				let _ = <T::Assets as fungibles::Create<T::AccountId>>::create(
-- 
2.43.0


From e0f7bd969fdb5f4c350efc5709314efa72a9a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:20 +0000
Subject: [PATCH 08/19] fix: refuse to hand a community over to the admin of
 another one

The new administrator's entry was overwritten, which left the community
they administered before without an administrator.
---
 pallets/communities/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2150c88..f7a9cc2 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -402,6 +402,10 @@ pub mod pallet {
 			);
 
 			CommunityIdFor::<T>::remove(origin.caller());
+			ensure!(
+				!CommunityIdFor::<T>::contains_key(&admin_origin),
+				Error::<T>::AlreadyAdmin
+			);
 			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);
 
 			Self::deposit_event(Event::AdminOriginSet {
-- 
2.43.0


From 6bec5875a22c2904209293039e3853046a6ba5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:20 +0000
Subject: [PATCH 09/19] fix: remove a membership only from the member who holds
 it

remove_member checked that the account is a member of the community but
released any membership named, including those of other members.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index f7a9cc2..4669076 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -451,7 +451,10 @@ pub mod pallet {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 			let who = T::Lookup::lookup(who)?;
 
-			ensure!(T::MemberMgmt::is_member_of(&community_id, &who), Error::<T>::NotAMember);
+			ensure!(
+				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
+				Error::<T>::NotAMember
+			);
 
 			T::MemberMgmt::release(&community_id, &membership_id)?;
 
-- 
2.43.0


From e74712d27c59b7da8416cbc630b0d7ef5b218262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:20 +0000
Subject: [PATCH 10/19] fix: report the new rank after a demotion

The event carried the rank from before the demotion.
---
 pallets/communities/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 4669076..56c634e 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -481,8 +481,10 @@ pub mod pallet {
 		pub fn demote(origin: OriginFor<T>, membership_id: MembershipIdOf<T>) -> DispatchResult {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 
-			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id).ok_or(Error::<T>::NotAMember)?;
-			T::MemberMgmt::set_rank(&community_id, &membership_id, rank.demote_by(ONE))?;
+			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)
+				.ok_or(Error::<T>::NotAMember)?
+				.demote_by(ONE);
+			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
 
 			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
 			Ok(())
-- 
2.43.0


From 64981e58785fbc10f16cf7802d88357a0c89ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:20 +0000
Subject: [PATCH 11/19] fix: compute the approval of a tally without overflow

The sum of ayes and nays can exceed the weight type, as each of them
saturates at its maximum.
---
 pallets/communities/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/impls.rs b/pallets/communities/src/impls.rs
index eea66f1..e7997f0 100644
--- a/pallets/communities/src/impls.rs
+++ b/pallets/communities/src/impls.rs
@@ -20,7 +20,8 @@ impl<T: Config> VoteTally<VoteWeight, CommunityIdOf<T>> for Tally<T> {
 	}
 
 	fn approval(&self, _cid: CommunityIdOf<T>) -> sp_runtime::Perbill {
-		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
+		let (ayes, nays) = (u64::from(self.ayes), u64::from(self.nays));
+		Perbill::from_rational(ayes, 1.max(ayes + nays))
 	}
 
 	#[cfg(feature = "runtime-benchmarks")]
-- 
2.43.0


From 2bde0437cbb41db4c8c6bb692a59a6e85ea55715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:20 +0000
Subject: [PATCH 12/19] fix: saturate the weight of ranked votes

A balance vote cast under another decision method could overflow the
multiplication by rank once the community decides by rank.
---
 pallets/communities/src/functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/functions.rs b/pallets/communities/src/functions.rs
index 6241feb..1440bfe 100644
--- a/pallets/communities/src/functions.rs
+++ b/pallets/communities/src/functions.rs
@@ -105,7 +105,7 @@ impl<T: Config> Pallet<T> {
 			};
 
 			let vote_weight = VoteWeight::from(vote);
-			tally.add_vote(say, vote_multiplier * vote_weight, vote_weight);
+			tally.add_vote(say, vote_weight.saturating_mul(vote_multiplier), vote_weight);
 
 			CommunityVotes::<T>::insert(poll_index, membership_id, (vote, who));
 			Self::update_locks(who, poll_index, vote, LockUpdateType::Add)
@@ -131,7 +131,7 @@ impl<T: Config> Pallet<T> {
 			};
 
 			let vote_weight = VoteWeight::from(&vote);
-			tally.remove_vote(vote.say(), vote_multiplier * vote_weight, vote_weight);
+			tally.remove_vote(vote.say(), vote_weight.saturating_mul(vote_multiplier), vote_weight);
 
 			CommunityVotes::<T>::remove(poll_index, membership_id);
 			Self::update_locks(&voter, poll_index, &vote, LockUpdateType::Remove)
-- 
2.43.0


From 34cb530f992935cb4f90825a9901eab304927953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 13/19] fix: count the last membership of the identifier range

A membership whose identifier has no successor was minted but left out
of the amount announced.
---
 pallets/communities-manager/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities-manager/src/lib.rs b/pallets/communities-manager/src/lib.rs
index 7f6e394..f3ac153 100644
--- a/pallets/communities-manager/src/lib.rs
+++ b/pallets/communities-manager/src/lib.rs
@@ -218,9 +218,9 @@ pub mod pallet {
 					Some(price),
 					None,
 				)?;
+				minted += 1;
 				if let Some(next_id) = id.increment() {
 					id = next_id;
-					minted += 1;
 				} else {
 					break;
 				}
-- 
2.43.0


From d5be1e1a4b26a584c2b3ce03e021141edb65bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:31 +0000
Subject: [PATCH 14/19] fix: accept reserve assets only from their reserve
 chain

---
 runtime/kreivo/src/xcm_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config.rs b/runtime/kreivo/src/xcm_config.rs
index b2c2b44..0b26548 100644
--- a/runtime/kreivo/src/xcm_config.rs
+++ b/runtime/kreivo/src/xcm_config.rs
@@ -185,9 +185,9 @@ fn matches_prefix(prefix: &Location, loc: &Location) -> bool {
 }
 pub struct ReserveAssetsFrom<T>(PhantomData<T>);
 impl<Prefix: Get<Location>> ContainsPair<Asset, Location> for ReserveAssetsFrom<Prefix> {
-	fn contains(asset: &Asset, _origin: &Location) -> bool {
-		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), _origin);
-		matches_prefix(&Prefix::get(), &asset.id.0)
+	fn contains(asset: &Asset, origin: &Location) -> bool {
+		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), origin);
+		&Prefix::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)
 	}
 }
 pub struct ReserveForeignAssetsFrom<P, R>(PhantomData<(P, R)>);
-- 
2.43.0


From 11b76b80db3095e8ebb9494dec3d9fa26cdf64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:31 +0000
Subject: [PATCH 15/19] fix: take an account for a community only if its pallet
 id matches

---
 runtime/kreivo/src/communities/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/communities/mod.rs b/runtime/kreivo/src/communities/mod.rs
index e393790..5419223 100644
--- a/runtime/kreivo/src/communities/mod.rs
+++ b/runtime/kreivo/src/communities/mod.rs
@@ -46,7 +46,10 @@ parameter_types! {
 
 morph_types! {
 	pub type AccountToCommunityId: TryMorph = |a: AccountId| -> Result<CommunityId, ()> {
-		PalletId::try_from_sub_account(&a).map(|(_, id)| id).ok_or(())
+		match PalletId::try_from_sub_account(&a) {
+			Some((pallet_id, id)) if pallet_id == CommunityPalletId::get() => Ok(id),
+			_ => Err(()),
+		}
 	};
 }
 type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;
-- 
2.43.0


From 179d6dce463d1a31072bd8313ae9e2dc36177d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:31 +0000
Subject: [PATCH 16/19] fix: represent only community accounts as a plurality

---
 runtime/kreivo/src/xcm_config/communities.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7410bc8..b3fed26 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -52,9 +52,12 @@ where
 		let Some(account_id) = o.clone().into_signer() else {
 			return Err(o.clone());
 		};
-		let Some((_, community_id)) = PalletId::try_from_sub_account(&account_id) else {
+		let Some((pallet_id, community_id)) = PalletId::try_from_sub_account(&account_id) else {
 			return Err(o.clone());
 		};
+		if pallet_id != T::PalletId::get() {
+			return Err(o.clone());
+		}
 		let origin = pallet_communities::Origin::<T>::new(community_id);
 		let j = Junction::try_from(origin).map_err(|_| o)?;
 		Ok(j.into())
-- 
2.43.0


From a5e199f5b64457710df2085c077849e4915d6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:31 +0000
Subject: [PATCH 17/19] fix: map only identifiers in range to community
 accounts

---
 runtime/kreivo/src/xcm_config/communities.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index b3fed26..02cf72e 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -4,10 +4,8 @@ use crate::Communities;
 use core::marker::PhantomData;
 use frame_support::{traits::OriginTrait, PalletId};
 use pallet_communities::AccountIdOf;
-use sp_runtime::{
-	traits::{AccountIdConversion, TryConvert},
-	SaturatedConversion,
-};
+use sp_runtime::traits::{AccountIdConversion, TryConvert};
+use virto_common::CommunityId;
 use xcm::latest::{BodyId, Junction, Junction::Plurality, Location};
 use xcm_executor::traits::ConvertLocation;
 
@@ -20,7 +18,9 @@ impl ConvertLocation<AccountId> for PluralityConvertsToCommunityAccountId {
 				[Plurality {
 					id: BodyId::Index(id), ..
 				}],
-			) => Some(Communities::community_account(&(*id).saturated_into())),
+			) => CommunityId::try_from(*id)
+				.ok()
+				.map(|id| Communities::community_account(&id)),
 			_ => None,
 		}
 	}
-- 
2.43.0


From 000d3f9d6da5531ee9b0eb9295fa53cd3e576576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:10 +0000
Subject: [PATCH 18/19] fix: keep the refund window at two days with six second
 blocks

---
 runtime/kreivo/src/payments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/payments.rs b/runtime/kreivo/src/payments.rs
index 1ee01f5..3de62eb 100644
--- a/runtime/kreivo/src/payments.rs
+++ b/runtime/kreivo/src/payments.rs
@@ -90,7 +90,7 @@ impl pallet_payments::Config for Runtime {
 	type RuntimeCall = RuntimeCall;
 	type Scheduler = Scheduler;
 	type Preimages = Preimage;
-	type CancelBufferBlockLength = ConstU32<14400>; // 2 days
+	type CancelBufferBlockLength = ConstU32<{ (2 * 24 * 60 * 60 * 1_000 / MILLISECS_PER_BLOCK) as u32 }>; // 2 days
 	type PalletsOrigin = OriginCaller;
 	type WeightInfo = crate::weights::pallet_payments::WeightInfo<Runtime>;
 	#[cfg(feature = "runtime-benchmarks")]
-- 
2.43.0


From 71c2c020229b496c0fbf197f9669e20ce4662782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:10 +0000
Subject: [PATCH 19/19] fix: accept only challenges of blocks that already
 exist

---
 runtime/kreivo/src/configuration/system_support.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/configuration/system_support.rs b/runtime/kreivo/src/configuration/system_support.rs
index 0f1081f..bcc33cf 100644
--- a/runtime/kreivo/src/configuration/system_support.rs
+++ b/runtime/kreivo/src/configuration/system_support.rs
@@ -142,7 +142,8 @@ impl Challenger for UnincludedBlockHashChallenger {
 	}
 
 	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
-		(*cx >= System::block_number().saturating_sub(3)).then_some(())?;
+		let now = System::block_number();
+		(*cx < now && *cx >= now.saturating_sub(3)).then_some(())?;
 		Self::generate(cx).eq(challenge).then_some(())
 	}
 }
-- 
2.43.0

