import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))


def compile(d, case):
    import minicheck
    return minicheck.check(d)


LIB = 'pallets/communities/src/lib.rs'
FN = 'pallets/communities/src/functions.rs'
IM = 'pallets/communities/src/impls.rs'
OR = 'pallets/communities/src/origin.rs'
TY = 'pallets/communities/src/types.rs'
MG = 'pallets/communities-manager/src/lib.rs'
ALL = ['M%02d' % i for i in range(1, 14)] + ['G01', 'G02', 'G03', 'R01', 'R06', 'R15']
CASES = []


def q(id, *edits, props=None):
    CASES.append({'id': 'q-' + id, 'edits': list(edits), 'expect': 'quiet', 'props': props or ALL})


def b(id, fires, *edits):
    CASES.append({'id': 'b-' + id, 'edits': list(edits), 'expect': 'caught', 'fires': fires, 'props': fires})


# ------------------------------------------------------------------ behaviour-preserving
q('comment', *[(f, '$END', '\n// a note\n') for f in (LIB, FN, IM, OR, TY, MG)])
q('noop', (FN, '		let reason = FreezeReason::VoteCasted.into();\n', '		let _ = ();\n		let reason = FreezeReason::VoteCasted.into();\n'),
  (LIB, '			let who = ensure_signed(origin)?;\n', '			let who = ensure_signed(origin)?;\n			let _unused = 1;\n'))
q('admin-check-first', (LIB, '''			CommunityIdFor::<T>::remove(origin.caller());
			ensure!(
				!CommunityIdFor::<T>::contains_key(&admin_origin),
				Error::<T>::AlreadyAdmin
			);
			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);
''', '''			let previous = origin.caller();
			ensure!(
				previous == &admin_origin || !CommunityIdFor::<T>::contains_key(&admin_origin),
				Error::<T>::AlreadyAdmin
			);
			CommunityIdFor::<T>::remove(previous);
			CommunityIdFor::<T>::insert(&admin_origin, community_id);
'''))
q('admin-take', (LIB, '''			ensure!(
				CommunityIdFor::<T>::get(origin.clone().caller()) == Some(community_id),
				DispatchError::BadOrigin
			);

			CommunityIdFor::<T>::remove(origin.caller());
''', '''			let previous = CommunityIdFor::<T>::take(origin.caller());
			ensure!(previous == Some(community_id), DispatchError::BadOrigin);
'''))
q('admin-match', (LIB, '''			ensure!(
				!CommunityIdFor::<T>::contains_key(&admin_origin),
				Error::<T>::AlreadyAdmin
			);
''', '''			if CommunityIdFor::<T>::get(&admin_origin).is_some() {
				return Err(Error::<T>::AlreadyAdmin.into());
			}
'''))
q('add-member-let-else', (LIB, '''			let (_, membership_id) = T::MemberMgmt::user_memberships(&account, None)
				.next()
				.ok_or(Error::<T>::CommunityAtCapacity)?;
''', '''			let mut free = T::MemberMgmt::user_memberships(&account, None);
			let Some((_, membership_id)) = free.next() else {
				return Err(Error::<T>::CommunityAtCapacity.into());
			};
'''))
q('add-member-map', (LIB, '''			let (_, membership_id) = T::MemberMgmt::user_memberships(&account, None)
				.next()
				.ok_or(Error::<T>::CommunityAtCapacity)?;
''', '''			let membership_id = T::MemberMgmt::user_memberships(&account, None)
				.map(|(_, m)| m)
				.next()
				.ok_or(Error::<T>::CommunityAtCapacity)?;
'''))
q('add-member-group', (LIB, 'T::MemberMgmt::user_memberships(&account, None)', 'T::MemberMgmt::user_memberships(&account, Some(community_id))'), props=['M01', 'M02', 'M03', 'M09'])
q('remove-member-match', (LIB, '''			ensure!(
				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
				Error::<T>::NotAMember
			);
''', '''			match T::MemberMgmt::check_membership(&who, &membership_id) {
				Some(id) if id == community_id => (),
				_ => return Err(Error::<T>::NotAMember.into()),
			}
'''))
q('promote-helper', (LIB, '''			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)
				.ok_or(Error::<T>::NotAMember)?
				.promote_by(ONE);
			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;

			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
			Ok(())
''', '''			Self::change_rank(community_id, membership_id, |rank| rank.promote_by(ONE))
'''), (LIB, '''			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)
				.ok_or(Error::<T>::NotAMember)?
				.demote_by(ONE);
			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;

			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
			Ok(())
''', '''			Self::change_rank(community_id, membership_id, |rank| rank.demote_by(ONE))
'''), (FN, '''	pub(crate) fn try_vote(''', '''	pub(crate) fn change_rank(
		community_id: CommunityIdOf<T>,
		membership_id: MembershipIdOf<T>,
		change: impl FnOnce(GenericRank) -> GenericRank,
	) -> DispatchResult {
		let current = T::MemberMgmt::rank_of(&community_id, &membership_id).ok_or(Error::<T>::NotAMember)?;
		let rank = change(current);
		T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
		Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
		Ok(())
	}

	pub(crate) fn try_vote('''))
q('decision-origin-let', (LIB, '''			ensure!(
				T::AdminOrigin::ensure_origin(origin)? == community_id,
				DispatchError::BadOrigin
			);
''', '''			let admin_of = T::AdminOrigin::ensure_origin(origin)?;
			if admin_of != community_id {
				return Err(DispatchError::BadOrigin);
			}
'''))
q('decision-insert', (LIB, 'CommunityDecisionMethod::<T>::set(community_id, decision_method);', 'CommunityDecisionMethod::<T>::insert(community_id, decision_method);'))
q('vote-weight-check', (LIB, 'ensure!(VoteWeight::from(&vote).gt(&0), Error::<T>::VoteBelowMinimum);', 'ensure!(vote.weight() > 0, Error::<T>::VoteBelowMinimum);'))
q('vote-weight-check2', (LIB, 'ensure!(VoteWeight::from(&vote).gt(&0), Error::<T>::VoteBelowMinimum);\n			let who = ensure_signed(origin)?;', 'let who = ensure_signed(origin)?;\n			let weight: VoteWeight = (&vote).into();\n			if weight == 0 {\n				return Err(Error::<T>::VoteBelowMinimum.into());\n			}'))
q('vote-always-remove', (LIB, '''			if CommunityVotes::<T>::contains_key(poll_index, membership_id) {
				Self::try_remove_vote(&community_id, &decision_method, &membership_id, poll_index)?;
			}
''', '''			if CommunityVotes::<T>::get(poll_index, membership_id).is_some() {
				Self::try_remove_vote(&community_id, &decision_method, &membership_id, poll_index)?;
			}
'''))
q('vote-lazy-method', (LIB, '''			let decision_method = CommunityDecisionMethod::<T>::get(community_id);
			if CommunityVotes''', '''			let decision_method = &CommunityDecisionMethod::<T>::get(community_id);
			if CommunityVotes'''), (LIB, 'Self::try_remove_vote(&community_id, &decision_method, &membership_id, poll_index)?;\n			}', 'Self::try_remove_vote(&community_id, decision_method, &membership_id, poll_index)?;\n			}'),
  (LIB, 'Self::try_vote(&community_id, &decision_method,', 'Self::try_vote(&community_id, decision_method,'))
q('say-helper', (FN, '''			let say = *match (vote, decision_method) {
				(Vote::AssetBalance(say, asset, amount), DecisionMethod::CommunityAsset(a, min)) if asset == a => {
					ensure!(amount >= min, Error::<T>::VoteBelowMinimum);
					say
				}
				(Vote::NativeBalance(say, ..), DecisionMethod::NativeToken)
				| (Vote::Standard(say), DecisionMethod::Membership | DecisionMethod::Rank) => say,
				_ => fail!(Error::<T>::InvalidVoteType),
			};
''', '''			match (decision_method, vote) {
				(DecisionMethod::CommunityAsset(a, min), Vote::AssetBalance(_, asset, amount)) => {
					ensure!(asset == a, Error::<T>::InvalidVoteType);
					ensure!(amount >= min, Error::<T>::VoteBelowMinimum);
				}
				(DecisionMethod::NativeToken, Vote::NativeBalance(..)) => {}
				(DecisionMethod::Membership, Vote::Standard(_)) => {}
				(DecisionMethod::Rank, Vote::Standard(_)) => {}
				_ => return Err(Error::<T>::InvalidVoteType.into()),
			}
			let say = vote.say();
'''))
q('multiplier-helper', (FN, '''			let vote_multiplier = match CommunityDecisionMethod::<T>::get(community_id) {
				DecisionMethod::Rank => T::MemberMgmt::rank_of(community_id, membership_id)
					.unwrap_or_default()
					.into(),
				_ => 1,
			};
''', '''			let vote_multiplier = Self::multiplier(decision_method, community_id, membership_id);
'''), (FN, '''			let vote_multiplier = match decision_method {
				DecisionMethod::Rank => T::MemberMgmt::rank_of(community_id, membership_id)
					.unwrap_or_default()
					.into(),
				_ => 1,
			};
''', '''			let vote_multiplier = Self::multiplier(decision_method, community_id, membership_id);
'''), (FN, '''	pub(crate) fn try_vote(''', '''	fn multiplier(
		decision_method: &DecisionMethodFor<T>,
		community_id: &CommunityIdOf<T>,
		membership_id: &MembershipIdOf<T>,
	) -> VoteWeight {
		if *decision_method == DecisionMethod::Rank {
			Self::member_rank(community_id, membership_id).into()
		} else {
			1
		}
	}

	pub(crate) fn try_vote('''))
q('tally-order', (FN, '''			let vote_weight = VoteWeight::from(vote);
			tally.add_vote(say, vote_weight.saturating_mul(vote_multiplier), vote_weight);

			CommunityVotes::<T>::insert(poll_index, membership_id, (vote, who));
			Self::update_locks(who, poll_index, vote, LockUpdateType::Add)
''', '''			CommunityVotes::<T>::insert(poll_index, membership_id, (vote.clone(), who.clone()));
			Self::update_locks(who, poll_index, vote, LockUpdateType::Add)?;

			let weight = vote.weight();
			let multiplied = vote_multiplier.saturating_mul(weight);
			tally.add_vote(say, multiplied, weight);
			Ok(())
'''), (FN, '''			let vote_multiplier = match CommunityDecisionMethod::<T>::get(community_id) {
''', '''			let vote_multiplier: VoteWeight = match CommunityDecisionMethod::<T>::get(community_id) {
'''))
q('remove-take', (FN, '''			let (vote, voter) = CommunityVotes::<T>::get(poll_index, membership_id).ok_or(Error::<T>::NoVoteCasted)?;
''', '''			let (vote, voter) = CommunityVotes::<T>::take(poll_index, membership_id).ok_or(Error::<T>::NoVoteCasted)?;
'''), (FN, '''			CommunityVotes::<T>::remove(poll_index, membership_id);
''', ''))
q('tally-inline', (FN, '''			tally.add_vote(say, vote_weight.saturating_mul(vote_multiplier), vote_weight);
''', '''			let multiplied = vote_weight.saturating_mul(vote_multiplier);
			if say {
				tally.ayes = tally.ayes.saturating_add(multiplied);
				tally.bare_ayes = tally.bare_ayes.saturating_add(vote_weight);
			} else {
				tally.nays = tally.nays.saturating_add(multiplied);
			}
'''))
q('tally-match', (FN, '''		if say_aye {
			self.ayes = self.ayes.saturating_add(multiplied_weight);
			self.bare_ayes = self.bare_ayes.saturating_add(weight);
		} else {
			self.nays = self.nays.saturating_add(multiplied_weight);
		}
''', '''		let side = match say_aye {
			true => {
				self.bare_ayes = self.bare_ayes.saturating_add(weight);
				&mut self.ayes
			}
			false => &mut self.nays,
		};
		*side = side.saturating_add(multiplied_weight);
'''))
q('locks-merge', (FN, '''		match vote.clone() {
			Vote::AssetBalance(..) | Vote::NativeBalance(..) => match update_type {
				LockUpdateType::Add => CommunityVoteLocks::<T>::insert(who, poll_index, vote.clone()),
				LockUpdateType::Remove => CommunityVoteLocks::<T>::remove(who, poll_index),
			},
			_ => (),
		}
''', '''		if !matches!(vote, Vote::Standard(_)) {
			if update_type == LockUpdateType::Add {
				CommunityVoteLocks::<T>::insert(who, poll_index, vote);
			} else {
				CommunityVoteLocks::<T>::remove(who, poll_index);
			}
		}
'''))
q('locks-filter-map', (FN, '''				let mut amount_to_freeze: AssetBalanceOf<T> = Zero::zero();

				for locked_vote in CommunityVoteLocks::<T>::iter_prefix_values(who) {
					if let Vote::AssetBalance(_, ref id, amount) = locked_vote {
						if id == asset_id {
							amount_to_freeze = amount_to_freeze.max(amount)
						}
					}
				}
''', '''				let amount_to_freeze: AssetBalanceOf<T> = CommunityVoteLocks::<T>::iter_prefix_values(who)
					.filter_map(|locked| match locked {
						Vote::AssetBalance(_, id, amount) if &id == asset_id => Some(amount),
						_ => None,
					})
					.fold(Zero::zero(), |acc: AssetBalanceOf<T>, amount| acc.max(amount));
'''))
q('locks-filter-max', (FN, '''				let mut amount_to_freeze: NativeBalanceOf<T> = Zero::zero();

				for locked_vote in CommunityVoteLocks::<T>::iter_prefix_values(who) {
					if let Vote::NativeBalance(_, amount) = locked_vote {
						amount_to_freeze = amount_to_freeze.max(amount)
					}
				}
''', '''				let amount_to_freeze: NativeBalanceOf<T> = CommunityVoteLocks::<T>::iter_prefix_values(who)
					.filter_map(|locked| if let Vote::NativeBalance(_, amount) = locked { Some(amount) } else { None })
					.max()
					.unwrap_or_default();
'''))
q('locks-iter-prefix', (FN, '''				for locked_vote in CommunityVoteLocks::<T>::iter_prefix_values(who) {
					if let Vote::NativeBalance(_, amount) = locked_vote {
						amount_to_freeze = amount_to_freeze.max(amount)
					}
				}
''', '''				for (_, locked_vote) in CommunityVoteLocks::<T>::iter_prefix(who) {
					let Vote::NativeBalance(_, amount) = locked_vote else {
						continue;
					};
					if amount > amount_to_freeze {
						amount_to_freeze = amount;
					}
				}
'''))
q('locks-extend-freeze', (FN, '''				let amount = T::Balances::balance_frozen(&reason, who).max(*amount);
				T::Balances::set_frozen(&reason, who, amount, Polite)?;
''', '''				T::Balances::extend_freeze(&reason, who, *amount)?;
'''))
q('locks-split', (FN, '''		match (update_type, vote) {
			(LockUpdateType::Add, Vote::AssetBalance(_, asset_id, amount)) => {
				let amount = T::AssetsFreezer::balance_frozen(asset_id.clone(), &reason, who).max(*amount);
				T::AssetsFreezer::set_frozen(asset_id.clone(), &reason, who, amount, Polite)?;
			}
''', '''		match (update_type, vote) {
			(LockUpdateType::Add, Vote::AssetBalance(_, asset_id, amount)) => {
				let frozen = T::AssetsFreezer::balance_frozen(asset_id.clone(), &reason, who);
				if frozen < *amount {
					T::AssetsFreezer::set_frozen(asset_id.clone(), &reason, who, *amount, Polite)?;
				}
			}
'''))
q('unlock-match', (LIB, '''			ensure!(T::Polls::as_ongoing(poll_index).is_none(), Error::<T>::AlreadyOngoing);
			let vote = CommunityVoteLocks::<T>::get(&who, poll_index).ok_or(Error::<T>::NoLocksInPlace)?;
			Self::update_locks(&who, poll_index, &vote, LockUpdateType::Remove)
''', '''			if let Some(_) = T::Polls::as_ongoing(poll_index) {
				return Err(Error::<T>::AlreadyOngoing.into());
			}
			match CommunityVoteLocks::<T>::get(&who, poll_index) {
				Some(vote) => Self::update_locks(&who, poll_index, &vote, LockUpdateType::Remove),
				None => Err(Error::<T>::NoLocksInPlace.into()),
			}
'''))
q('dispatch-inline', (FN, '''		let post = call.dispatch(signer.into()).map_err(|e| e.error)?;
		Ok(post)
''', '''		call.dispatch(signer.into())
'''))
q('dispatch-match', (FN, '''		let post = call.dispatch(signer.into()).map_err(|e| e.error)?;
		Ok(post)
''', '''		match call.dispatch(signer.into()) {
			Ok(post) => Ok(post),
			Err(e) => Err(e.error.into()),
		}
'''))
q('dispatch-weight', (LIB, '''			let weight = T::WeightInfo::dispatch_as_account()
				.saturating_add(T::DbWeight::get().reads_writes(1, 1))
				.saturating_add(di.weight);
			(weight, di.class)
''', '''			let own = T::WeightInfo::dispatch_as_account().saturating_add(T::DbWeight::get().reads_writes(1, 1));
			(di.weight.saturating_add(own), di.class)
'''))
q('approval-total', (IM, '''		let (ayes, nays) = (u64::from(self.ayes), u64::from(self.nays));
		Perbill::from_rational(ayes, 1.max(ayes + nays))
''', '''		let total = u64::from(self.ayes) + u64::from(self.nays);
		if total == 0 {
			return Perbill::zero();
		}
		Perbill::from_rational(u64::from(self.ayes), total)
'''))
q('tally-new', (IM, '''		Self::default()
	}

	fn ayes''', '''		Self {
			_phantom: Default::default(),
			ayes: 0,
			nays: 0,
			bare_ayes: 0,
		}
	}

	fn ayes'''))
q('max-support-let', (TY, '''		match CommunityDecisionMethod::<T>::get(community_id) {
			DecisionMethod::Membership => T::MemberMgmt::members_total(&community_id),
			DecisionMethod::Rank => T::MemberMgmt::ranks_total(&community_id),
			DecisionMethod::NativeToken => T::Balances::total_issuance().saturated_into::<VoteWeight>(),
			DecisionMethod::CommunityAsset(asset_id, _) => {
				T::Assets::total_issuance(asset_id).saturated_into::<VoteWeight>()
			}
		}
''', '''		use DecisionMethod::*;
		let method = CommunityDecisionMethod::<T>::get(community_id);
		match method {
			CommunityAsset(asset, ..) => T::Assets::total_issuance(asset).saturated_into(),
			NativeToken => T::Balances::total_issuance().saturated_into(),
			Rank => T::MemberMgmt::ranks_total(&community_id),
			Membership => T::MemberMgmt::members_total(&community_id),
		}
'''))
q('weight-or', (TY, '''			Vote::AssetBalance(_, _, balance) => balance.clone().saturated_into(),
			Vote::NativeBalance(_, balance) => balance.clone().saturated_into(),
''', '''			Vote::AssetBalance(.., balance) => balance.clone().unique_saturated_into(),
			Vote::NativeBalance(_, balance) => balance.clone().unique_saturated_into(),
'''))
q('say-or', (TY, '''		*match self {
			Vote::AssetBalance(say, _, _) => say,
			Vote::NativeBalance(say, _) => say,
			Vote::Standard(say) => say,
		}
''', '''		match self {
			Vote::AssetBalance(say, ..) | Vote::NativeBalance(say, _) | Vote::Standard(say) => *say,
		}
'''))
q('register-order', (FN, '''		CommunityIdFor::<T>::insert(admin, community_id);
		Info::<T>::insert(community_id, CommunityInfo::default());
		frame_system::Pallet::<T>::inc_providers(&Self::community_account(community_id));
''', '''		let account = Self::community_account(community_id);
		frame_system::Pallet::<T>::inc_providers(&account);
		Info::<T>::insert(
			community_id,
			CommunityInfo {
				state: CommunityState::Active,
			},
		);
		CommunityIdFor::<T>::insert(admin, community_id);
'''))
q('register-get', (FN, '''		ensure!(
			!Self::community_exists(community_id),
			Error::<T>::CommunityAlreadyExists
		);
''', '''		if Info::<T>::get(community_id).is_some() {
			fail!(Error::<T>::CommunityAlreadyExists);
		}
'''))
q('register-deposit-helper', (FN, '''		if let Some((deposit, depositor, depositee)) = maybe_deposit {
			T::Balances::transfer(
				&depositor,
				&depositee,
				deposit,
				frame_support::traits::tokens::Preservation::Preserve,
			)?;
		}
''', '''		if let Some(deposit) = maybe_deposit {
			Self::charge(deposit)?;
		}
'''), (FN, '''	pub(crate) fn try_vote(''', '''	fn charge((amount, from, to): (NativeBalanceOf<T>, AccountIdOf<T>, AccountIdOf<T>)) -> DispatchResult {
		T::Balances::transfer(&from, &to, amount, frame_support::traits::tokens::Preservation::Preserve)?;
		Ok(())
	}

	pub(crate) fn try_vote('''))
q('ensure-community-if', (OR, '''		let id = match o.clone().into() {
			Ok(RawOrigin { community_id, .. }) => community_id,
			Err(_) => {
				let origin = o.clone().into_caller();
				CommunityIdFor::<T>::get(origin).ok_or_else(|| o.clone())?
			}
		};
		Info::<T>::get(id)
			.and_then(|c| c.state.eq(&Active).then_some(id))
			.ok_or(o)
''', '''		let id = if let Ok(RawOrigin { community_id, .. }) = o.clone().into() {
			community_id
		} else {
			match CommunityIdFor::<T>::get(o.clone().into_caller()) {
				Some(id) => id,
				Option::None => return Err(o),
			}
		};
		match Info::<T>::get(id) {
			Some(info) if info.state == Active => Ok(id),
			_ => Err(o),
		}
'''))
q('ensure-community-root', (OR, '''		if matches!(o.as_system_ref(), Some(Root) | Some(None)) {
			return Err(o);
		}
''', '''		match o.as_system_ref() {
			Some(Root) | Some(None) => return Err(o),
			_ => {}
		}
'''))
q('signed-by-community', (OR, '''		match o.clone().into() {
			Ok(RawOrigin { community_id, .. }) => Ok(Pallet::<T>::community_account(&community_id)),
			_ => Err(o.clone()),
		}
''', '''		let result: Result<RawOrigin<T>, OuterOrigin> = o.into();
		result.map(|origin| Pallet::<T>::community_account(&origin.id()))
'''))
q('static-community', (OR, '''			Ok(RawOrigin { ref community_id, .. }) if community_id == &C::get() => {
				Ok(Pallet::<T>::community_account(community_id))
			}
			_ => Err(o.clone()),
''', '''			Ok(RawOrigin { community_id, .. }) => {
				if community_id != C::get() {
					return Err(o);
				}
				Ok(Pallet::<T>::community_account(&community_id))
			}
			Err(_) => Err(o),
'''))
q('member-guard', (OR, '''			Ok(Signed(who)) => {
				if T::MemberMgmt::is_member_of(community_id, &who) {
					Ok(())
				} else {
					Err(o.clone())
				}
			}
			_ => Err(o),
''', '''			Ok(Signed(who)) if T::MemberMgmt::is_member_of(community_id, &who) => Ok(()),
			_ => Err(o),
'''), props=ALL + ['R04'])
q('plurality-part', (OR, '''		let mut origin = RawOrigin::new(id.into());
		if let Some(s) = subset {
			origin.with_subset(s);
		}
		Ok(origin)
''', '''		Ok(RawOrigin {
			community_id: id.into(),
			subset,
		})
'''))
q('plurality-match', (OR, '''		let Plurality { id: Index(id), part } = value else {
			return Err(());
		};
''', '''		let (id, part) = match value {
			Plurality { id: Index(id), part } => (id, part),
			_ => return Err(()),
		};
'''))
q('account-derive', (FN, 'T::PalletId::get().into_sub_account_truncating(community_id)', 'let pallet_id = T::PalletId::get();\n		pallet_id.into_sub_account_truncating(community_id)'))
q('mgr-mint-while', (MG, '''			for _ in 0..amount {
				T::Create''', '''			while minted < u32::from(amount) {
				T::Create'''))
q('mgr-mint-let-else', (MG, '''				if let Some(next_id) = id.increment() {
					id = next_id;
				} else {
					break;
				}
''', '''				let Some(next_id) = id.increment() else {
					break;
				};
				id = next_id;
'''))
q('mgr-hoist', (MG, '''			let mut id = starting_at.clone();
''', '''			let collection = T::MembershipsManagerCollectionId::get();
			let owner = T::MembershipsManagerOwner::get();
			let mut id = starting_at.clone();
'''), (MG, '&T::MembershipsManagerCollectionId::get(),', '&collection,'), (MG, '&T::MembershipsManagerOwner::get(),', '&owner,'))
q('mgr-origin-first', (MG, '''			ensure!(amount <= 1024u16, Error::<T>::CreatingTooManyMemberships);
			T::CreateMembershipsOrigin::ensure_origin(origin)?;
''', '''			T::CreateMembershipsOrigin::ensure_origin(origin)?;
			if amount > 1024 {
				return Err(Error::<T>::CreatingTooManyMemberships.into());
			}
'''))
q('mgr-mint-helper', (MG, '''				T::CreateMemberships::mint_into(
					&T::MembershipsManagerCollectionId::get(),
					&id,
					&T::MembershipsManagerOwner::get(),
					&Default::default(),
					true,
				)?;

				T::CreateMemberships::set_price(
					&T::MembershipsManagerCollectionId::get(),
					&id,
					&T::MembershipsManagerOwner::get(),
					Some(price),
					None,
				)?;
''', '''				Self::mint_one(&id, price)?;
'''), (MG, '''		fn default_tack(''', '''		fn mint_one(id: &<T as Config>::MembershipId, price: NativeBalanceOf<T>) -> DispatchResult {
			let collection = T::MembershipsManagerCollectionId::get();
			let owner = T::MembershipsManagerOwner::get();
			T::CreateMemberships::mint_into(&collection, id, &owner, &Default::default(), true)?;
			T::CreateMemberships::set_price(&collection, id, &owner, Some(price), None)
		}

		fn default_tack('''))
q('mgr-register-order', (MG, '''			// Induct community at Kreivo Governance with rank 0
			T::RankedCollective::induct(&community_account)?;

''', ''), (MG, '''			// Create memberships collection for community
''', '''			T::RankedCollective::induct(&community_account)?;
			// Create memberships collection for community
'''))
q('mgr-track-match', (MG, '''				maybe_track_info.unwrap_or_else(|| Self::default_tack(community_name)),
''', '''				match maybe_track_info {
					Some(info) => info,
					None => Self::default_tack(community_name),
				},
'''))
q('mgr-config-default', (MG, '''				&CollectionConfig {
					settings: Default::default(),
					max_supply: None,
					mint_settings: Default::default(),
				},
''', '''				&collection_config,
'''), (MG, '''			// Create memberships collection for community
''', '''			let collection_config = CollectionConfig {
				mint_settings: Default::default(),
				settings: Default::default(),
				max_supply: None,
			};
'''))
q('mgr-decision-map', (MG, '''			if let Some(decision_method) = maybe_decision_method {
				pallet_communities::Pallet::<T>::set_decision_method(
					admin_origin.into(),
					community_id,
					decision_method,
				)?;
			}
''', '''			match maybe_decision_method {
				Some(method) => {
					pallet_communities::Pallet::<T>::set_decision_method(admin_origin.into(), community_id, method)?
				}
				None => {}
			}
'''))

# ------------------------------------------------------------------ breaking
b('decision-any', ['M01'], (LIB, '''			ensure!(
				T::AdminOrigin::ensure_origin(origin)? == community_id,
				DispatchError::BadOrigin
			);
''', '''			T::AdminOrigin::ensure_origin(origin)?;
'''))
b('decision-member-origin', ['M01'], (LIB, 'T::AdminOrigin::ensure_origin(origin)? == community_id', 'T::MemberMgmtOrigin::ensure_origin(origin)? == community_id'))
b('remove-any-membership', ['M09'], (LIB, 'T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id)', 'T::MemberMgmt::check_membership(&who, &membership_id).is_some()'))
b('dispatch-admin', ['M01'], (LIB, '''			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
			Self::do_dispatch''', '''			let community_id = T::AdminOrigin::ensure_origin(origin)?;
			Self::do_dispatch'''))
b('add-unchecked', ['M01'], (LIB, '''			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
			let who = T::Lookup::lookup(who)?;

			let account''', '''			let caller = ensure_signed(origin)?;
			let community_id = T::MemberMgmt::user_memberships(&caller, None).next().ok_or(Error::<T>::NotAMember)?.0;
			let who = T::Lookup::lookup(who)?;

			let account'''))
b('community-inactive', ['M02'], (OR, '.and_then(|c| c.state.eq(&Active).then_some(id))', '.map(|_| id)'))
b('community-root', ['M02'], (OR, 'Some(Root) | Some(None)', 'Some(None)'))
b('community-missing', ['M02'], (OR, '''		Info::<T>::get(id)
			.and_then(|c| c.state.eq(&Active).then_some(id))
			.ok_or(o)
''', '''		if Info::<T>::get(id).map(|c| c.state.eq(&Active)).unwrap_or(true) {
			Ok(id)
		} else {
			Err(o)
		}
'''))
b('static-any', ['M02'], (OR, ' if community_id == &C::get() => {', ' if community_id == &C::get() || true => {'))
b('account-fixed', ['M02'], (FN, 'T::PalletId::get().into_sub_account_truncating(community_id)', 'T::PalletId::get().into_sub_account_truncating((community_id, 0u8))'))
b('signed-by-static-id', ['M02'], (OR, 'Ok(RawOrigin { community_id, .. }) => Ok(Pallet::<T>::community_account(&community_id)),\n			_ => Err(o.clone()),', 'Ok(RawOrigin { .. }) => Ok(sp_runtime::traits::AccountIdConversion::into_account_truncating(&T::PalletId::get())),\n			_ => Err(o.clone()),'))
b('register-twice', ['M03'], (FN, '''		ensure!(
			!Self::community_exists(community_id),
			Error::<T>::CommunityAlreadyExists
		);
''', ''))
b('register-admin-twice', ['M03'], (FN, '		ensure!(!CommunityIdFor::<T>::contains_key(admin), Error::<T>::AlreadyAdmin);\n', ''))
b('register-no-provider', ['M03'], (FN, '		frame_system::Pallet::<T>::inc_providers(&Self::community_account(community_id));\n', ''))
b('register-swapped-deposit', ['M03'], (FN, '''				&depositor,
				&depositee,
''', '''				&depositee,
				&depositor,
'''))
b('register-ignore-deposit', ['M03'], (FN, '''			T::Balances::transfer(
				&depositor,''', '''			let _ = T::Balances::transfer(
				&depositor,'''), (FN, '''				frame_support::traits::tokens::Preservation::Preserve,
			)?;
''', '''				frame_support::traits::tokens::Preservation::Preserve,
			);
'''))
b('admin-keeps', ['M03'], (LIB, '			CommunityIdFor::<T>::remove(origin.caller());\n', ''))
b('admin-no-check', ['M03'], (LIB, '''			ensure!(
				!CommunityIdFor::<T>::contains_key(&admin_origin),
				Error::<T>::AlreadyAdmin
			);
''', ''))
b('state-default', ['M03'], (TY, '''	#[default]
	Active,
''', '''	Active,
'''), (TY, '''	Blocked,
}''', '''	#[default]
	Blocked,
}'''))
b('vote-any-poll', ['M04'], (FN, '''			ensure!(community_id == &class, Error::<T>::InvalidTrack);

			let vote_multiplier = match CommunityDecisionMethod''', '''			let _ = class;

			let vote_multiplier = match CommunityDecisionMethod'''))
b('vote-zero', ['M04'], (LIB, '			ensure!(VoteWeight::from(&vote).gt(&0), Error::<T>::VoteBelowMinimum);\n', ''))
b('vote-min', ['M04'], (FN, 'ensure!(amount >= min, Error::<T>::VoteBelowMinimum);', 'ensure!(amount <= min, Error::<T>::VoteBelowMinimum);'))
b('vote-other-asset', ['M04'], (FN, ' if asset == a => {', ' => {\n					let _ = (asset, a);'))
b('vote-kind', ['M04'], (FN, '(Vote::NativeBalance(say, ..), DecisionMethod::NativeToken)', '(Vote::NativeBalance(say, ..), DecisionMethod::NativeToken | DecisionMethod::Rank)'))
b('remove-vote-anyone', ['M04'], (LIB, '''			let community_id = T::MemberMgmt::check_membership(&who, &membership_id).ok_or(Error::<T>::NotAMember)?;
			let decision_method = CommunityDecisionMethod::<T>::get(community_id);
			Self::try_remove_vote''', '''			let (community_id, _) = T::MemberMgmt::user_memberships(&who, None).next().ok_or(Error::<T>::NotAMember)?;
			let decision_method = CommunityDecisionMethod::<T>::get(community_id);
			Self::try_remove_vote'''))
b('vote-no-remove', ['M05'], (LIB, '''			if CommunityVotes::<T>::contains_key(poll_index, membership_id) {
				Self::try_remove_vote(&community_id, &decision_method, &membership_id, poll_index)?;
			}
''', ''))
b('tally-side', ['M05'], (FN, 'self.nays = self.nays.saturating_sub(multiplied_weight);', 'self.nays = self.nays.saturating_sub(weight);'))
b('tally-bare', ['M05'], (FN, 'self.bare_ayes = self.bare_ayes.saturating_add(weight);', 'self.bare_ayes = self.bare_ayes.saturating_add(multiplied_weight);'))
b('tally-swap', ['M05'], (FN, 'tally.remove_vote(vote.say(), vote_weight.saturating_mul(vote_multiplier), vote_weight);', 'tally.remove_vote(!vote.say(), vote_weight.saturating_mul(vote_multiplier), vote_weight);'))
b('vote-keep-record', ['M05'], (FN, '			CommunityVotes::<T>::remove(poll_index, membership_id);\n', ''))
b('vote-no-record', ['M05'], (FN, '			CommunityVotes::<T>::insert(poll_index, membership_id, (vote, who));\n', ''))
b('multiplier-all', ['M05'], (FN, '''			let vote_multiplier = match CommunityDecisionMethod::<T>::get(community_id) {
				DecisionMethod::Rank =>''', '''			let vote_multiplier = match CommunityDecisionMethod::<T>::get(community_id) {
				DecisionMethod::Rank | DecisionMethod::Membership =>'''))
b('freeze-shrinks', ['M06'], (FN, 'T::Balances::balance_frozen(&reason, who).max(*amount)', '*amount'))
b('freeze-min', ['M06'], (FN, 'T::AssetsFreezer::balance_frozen(asset_id.clone(), &reason, who).max(*amount)', 'T::AssetsFreezer::balance_frozen(asset_id.clone(), &reason, who).min(*amount)'))
b('lock-not-dropped', ['M06'], (FN, 'LockUpdateType::Remove => CommunityVoteLocks::<T>::remove(who, poll_index),', 'LockUpdateType::Remove => (),'))
b('unlock-any-asset', ['M06'], (FN, '						if id == asset_id {\n							amount_to_freeze = amount_to_freeze.max(amount)\n						}\n', '						let _ = id;\n						amount_to_freeze = amount_to_freeze.max(amount)\n'))
b('unlock-last', ['M06'], (FN, '''					if let Vote::NativeBalance(_, amount) = locked_vote {
						amount_to_freeze = amount_to_freeze.max(amount)
					}
''', '''					if let Vote::NativeBalance(_, amount) = locked_vote {
						amount_to_freeze = amount
					}
'''))
b('unlock-ongoing', ['M06'], (LIB, 'ensure!(T::Polls::as_ongoing(poll_index).is_none(), Error::<T>::AlreadyOngoing);', 'ensure!(T::Polls::as_ongoing(poll_index).is_some(), Error::<T>::NotOngoing);'))
b('unlock-thaw', ['M06'], (FN, '''				T::Balances::set_frozen(
					&FreezeReason::VoteCasted.into(),
					who,
					amount_to_freeze,
					frame_support::traits::tokens::Fortitude::Polite,
				)?;
''', '''				let _ = amount_to_freeze;
				T::Balances::thaw(&reason, who)?;
'''))
b('remove-voter', ['M06'], (FN, 'Self::update_locks(&voter, poll_index, &vote, LockUpdateType::Remove)', 'let _ = voter;\n			Ok(())'))
b('approval-bare', ['M07'], (IM, 'u64::from(self.ayes), u64::from(self.nays)', 'u64::from(self.bare_ayes), u64::from(self.nays)'))
b('approval-overflow', ['M07'], (IM, '''		let (ayes, nays) = (u64::from(self.ayes), u64::from(self.nays));
		Perbill::from_rational(ayes, 1.max(ayes + nays))
''', '''		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
'''))
b('support-ayes', ['M07'], (IM, 'Perbill::from_rational(self.bare_ayes, Self::max_support(community_id))', 'Perbill::from_rational(self.ayes, Self::max_support(community_id))'))
b('max-support-rank', ['M07'], (TY, 'DecisionMethod::Rank => T::MemberMgmt::ranks_total(&community_id),', 'DecisionMethod::Rank => T::MemberMgmt::members_total(&community_id),'))
b('max-support-asset', ['M07'], (TY, 'T::Assets::total_issuance(asset_id).saturated_into::<VoteWeight>()', '{\n				let _ = asset_id;\n				T::Balances::total_issuance().saturated_into::<VoteWeight>()\n			}'))
b('approval-zero', ['M07'], (IM, '1.max(ayes + nays)', 'ayes + nays'))
b('ayes-bare', ['M07'], (IM, '		self.ayes\n', '		self.bare_ayes\n'))
b('dispatch-root', ['M08'], (FN, '''		let signer = frame_system::RawOrigin::Signed(community_account);
''', '''		let _ = community_account;
		let signer = frame_system::RawOrigin::Root;
'''))
b('dispatch-swallow', ['M08'], (FN, '''		let post = call.dispatch(signer.into()).map_err(|e| e.error)?;
		Ok(post)
''', '''		Ok(call.dispatch(signer.into()).unwrap_or_else(|e| e.post_info))
'''))
b('dispatch-weight-const', ['M08'], (LIB, '''				.saturating_add(T::DbWeight::get().reads_writes(1, 1))
				.saturating_add(di.weight);
			(weight, di.class)
		})]
		pub fn''', '''				.saturating_add(T::DbWeight::get().reads_writes(1, 1));
			(weight, di.class)
		})]
		pub fn'''))
b('rank-event-old', ['M09'], (LIB, '''				.ok_or(Error::<T>::NotAMember)?
				.demote_by(ONE);
			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
''', '''				.ok_or(Error::<T>::NotAMember)?;
			T::MemberMgmt::set_rank(&community_id, &membership_id, rank.demote_by(ONE))?;
'''))
b('promote-demotes', ['M09'], (LIB, '.promote_by(ONE)', '.demote_by(ONE)'))
b('add-own', ['M09'], (LIB, 'T::MemberMgmt::user_memberships(&account, None)', 'T::MemberMgmt::user_memberships(&who, None)'))
b('plurality-part-lost', ['M10'], (OR, 'Some(Subset::Members { count }) => BodyPart::Members { count },', 'Some(Subset::Members { .. }) => BodyPart::Voice,'))
b('plurality-rank', ['M10'], (OR, 'Some(Subset::AtLeastRank(_)) => return Err(()),', 'Some(Subset::AtLeastRank(_)) => BodyPart::Voice,'))
b('plurality-fraction', ['M10'], (OR, 'denom: <Permill as sp_runtime::PerThing>::ACCURACY,', 'denom: 100,'))
b('plurality-rest', ['M10'], (OR, '			_ => return Err(()),\n		};\n		let mut', '			_ => None,\n		};\n		let mut'))
b('mgr-no-induct', ['G01'], (MG, '			T::RankedCollective::induct(&community_account)?;\n', ''))
b('mgr-ignore-track', ['G01'], (MG, '''				community_origin.into_caller(),
			)?;
''', '''				community_origin.into_caller(),
			)
			.ok();
'''))
b('mgr-collection-admin', ['G01'], (MG, '''				&community_account,
				&community_account,
''', '''				&community_account,
				&T::MembershipsManagerOwner::get(),
'''))
b('mgr-no-deposit', ['G01'], (MG, '&admin_origin.clone().into(), &community_id, maybe_deposit)?;', '&admin_origin.clone().into(), &community_id, maybe_deposit.filter(|_| false))?;'))
b('mgr-default-track', ['G01'], (MG, 'maybe_track_info.unwrap_or_else(|| Self::default_tack(community_name)),', '{\n					let _ = maybe_track_info;\n					Self::default_tack(community_name)\n				},'))
b('mgr-limit', ['G02'], (MG, 'amount <= 1024u16', 'amount <= 10240u16'))
b('mgr-announce', ['G02'], (MG, 'amount: minted,', 'amount: amount.into(),'))
b('mgr-price', ['G02'], (MG, 'Some(price),', 'Some(price).filter(|p| *p > 0u8.into()),'))
b('mgr-same-id', ['G02'], (MG, '					id = next_id;\n', '					let _ = next_id;\n'))
b('mgr-unauth', ['G02'], (MG, '			T::CreateMembershipsOrigin::ensure_origin(origin)?;\n', '			let _ = T::CreateMembershipsOrigin::ensure_origin(origin);\n'))
b('mgr-event-id', ['G02'], (MG, '''				starting_at,
				amount: minted,''', '''				starting_at: id,
				amount: minted,'''))
b('mgr-count-early', ['G02'], (MG, '				minted += 1;\n				if let Some(next_id) = id.increment() {\n					id = next_id;\n', '				if let Some(next_id) = id.increment() {\n					minted += 1;\n					id = next_id;\n'))

# ------------------------------------------------------------------ decision methods, announcements, due calls, default track
b('asset-sufficient', ['M11'], (LIB, '					false,\n					min_vote,', '					true,\n					min_vote,'))
b('asset-owner', ['M11'], (LIB, '''					T::PalletId::get().into_account_truncating(),
					false,''', '''					Self::community_account(&community_id),
					false,'''))
b('asset-min', ['M11'], (LIB, '''					false,
					min_vote,''', '''					false,
					min_vote.saturating_add(1u8.into()),'''), (LIB, 'let _ = <T::Assets as', 'use sp_runtime::Saturating;\n				let _ = <T::Assets as'))
b('method-kept', ['M11'], (LIB, 'CommunityDecisionMethod::<T>::set(community_id, decision_method);', 'if !CommunityDecisionMethod::<T>::contains_key(community_id) {\n				CommunityDecisionMethod::<T>::set(community_id, decision_method);\n			}'))
b('create-silent', ['M12'], (LIB, '''			Self::deposit_event(crate::Event::CommunityCreated {
				id: community_id,
				origin: admin_origin,
			});
''', ''))
b('vote-event-twice', ['M12'], (LIB, '''			Self::deposit_event(Event::<T>::VoteRemoved {
				who: who.clone(),
				poll_index,
			});
''', '''			Self::deposit_event(Event::<T>::VoteRemoved {
				who: who.clone(),
				poll_index,
			});
			Self::deposit_event(Event::<T>::VoteRemoved {
				who: who.clone(),
				poll_index,
			});
'''))
b('register-ignored', ['M12'], (LIB, 'Self::register(&admin_origin, &community_id, maybe_deposit)?;', 'let _ = Self::register(&admin_origin, &community_id, maybe_deposit);'))
b('freeze-ignored', ['M12'], (FN, 'T::Balances::set_frozen(&reason, who, amount, Polite)?;', 'let _ = T::Balances::set_frozen(&reason, who, amount, Polite);'))
b('vote-one', ['M13'], (LIB, 'ensure!(VoteWeight::from(&vote).gt(&0), Error::<T>::VoteBelowMinimum);', 'ensure!(VoteWeight::from(&vote).gt(&1), Error::<T>::VoteBelowMinimum);'))
b('vote-above', ['M13'], (FN, 'ensure!(amount >= min, Error::<T>::VoteBelowMinimum);', 'ensure!(amount > min, Error::<T>::VoteBelowMinimum);'))
b('vote-again', ['M13'], (LIB, 'if CommunityVotes::<T>::contains_key(poll_index, membership_id) {', 'if true {'))
b('unlock-ongoing', ['M13'], (LIB, 'ensure!(T::Polls::as_ongoing(poll_index).is_none(), Error::<T>::AlreadyOngoing);', 'ensure!(T::Polls::as_ongoing(poll_index).is_some(), Error::<T>::AlreadyOngoing);'))
b('create-blocked', ['M13'], (FN, 'ensure!(!CommunityIdFor::<T>::contains_key(admin), Error::<T>::AlreadyAdmin);', 'ensure!(!CommunityIdFor::<T>::contains_key(admin), Error::<T>::AlreadyAdmin);\n		ensure!(CommunityDecisionMethod::<T>::contains_key(community_id), Error::<T>::CommunityAlreadyExists);'))
b('deposit-expendable', ['M03'], (FN, 'frame_support::traits::tokens::Preservation::Preserve,', 'frame_support::traits::tokens::Preservation::Expendable,'))
b('limit-below', ['G02'], (MG, 'ensure!(amount <= 1024u16,', 'ensure!(amount < 1024u16,'))
b('mint-deposit', ['G02'], (MG, '					&Default::default(),\n					true,', '					&Default::default(),\n					false,'))
b('collection-limited', ['G01'], (MG, 'max_supply: None,', 'max_supply: Some(1024),'))
b('track-two', ['G03'], (MG, 'max_deciding: 1,', 'max_deciding: 2,'))
b('track-floor', ['G03'], (MG, 'floor: Perbill::from_percent(50),', 'floor: Perbill::from_percent(5),'))
b('track-name', ['G03'], (MG, 'T::RankedCollective::induct(&community_account)?;', 'ensure!(!community_name.is_empty(), Error::<T>::InvalidCommunityName);\n			T::RankedCollective::induct(&community_account)?;'))
q('track-parts', (MG, 'floor: Perbill::from_percent(50),', 'floor: Perbill::from_rational(1u32, 2u32),'), (MG, 'prepare_period: 1u8.into(),', 'prepare_period: 1u32.into(),'))
q('vote-min-flipped', (FN, 'ensure!(amount >= min, Error::<T>::VoteBelowMinimum);', 'if amount < min {\n						fail!(Error::<T>::VoteBelowMinimum);\n					}'))
q('vote-weight-zero', (LIB, 'ensure!(VoteWeight::from(&vote).gt(&0), Error::<T>::VoteBelowMinimum);', 'if VoteWeight::from(&vote) == 0 {\n				return Err(Error::<T>::VoteBelowMinimum.into());\n			}'))
q('unlock-match', (LIB, '''			ensure!(T::Polls::as_ongoing(poll_index).is_none(), Error::<T>::AlreadyOngoing);
			let vote = CommunityVoteLocks::<T>::get(&who, poll_index).ok_or(Error::<T>::NoLocksInPlace)?;
''', '''			if let Some(_) = T::Polls::as_ongoing(poll_index) {
				return Err(Error::<T>::AlreadyOngoing.into());
			}
			let Some(vote) = CommunityVoteLocks::<T>::get(&who, poll_index) else {
				return Err(Error::<T>::NoLocksInPlace.into());
			};
'''))
q('remove-member-match', (LIB, '''			ensure!(
				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
				Error::<T>::NotAMember
			);
''', '''			match T::MemberMgmt::check_membership(&who, &membership_id) {
				Some(c) if c == community_id => {}
				_ => return Err(Error::<T>::NotAMember.into()),
			}
'''))
q('remove-member-option', (LIB, '''			ensure!(
				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
				Error::<T>::NotAMember
			);
''', '''			ensure!(
				T::MemberMgmt::check_membership(&who, &membership_id).is_some_and(|c| c == community_id),
				Error::<T>::NotAMember
			);
'''))
q('method-match', (LIB, '''			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {''', '''			if let DecisionMethod::CommunityAsset(asset, min_vote) = decision_method.clone() {'''))

# ------------------------------------------------------------------ larger rewrites
def src(f):
    return open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), f)).read()


def cut(text, start, end):
    i = text.index(start)
    return text[i:text.index(end, i)]


FN, LB, TYP, OR, IM, MG = ('pallets/communities/src/' + x for x in ('functions.rs', 'lib.rs', 'types.rs', 'origin.rs', 'impls.rs', '../../communities-manager/src/lib.rs'))
UPD = '''		match (update_type, vote) {
			(LockUpdateType::Add, Vote::AssetBalance(_, asset_id, amount)) => {'''
q('locks-two-fns', (FN, lambda t: t.replace(cut(t, '	pub(crate) fn update_locks(', '	pub(crate) fn do_dispatch'), '''	pub(crate) fn update_locks(
		who: &AccountIdOf<T>,
		poll_index: PollIndexOf<T>,
		vote: &VoteOf<T>,
		update_type: LockUpdateType,
	) -> DispatchResult {
		match update_type {
			LockUpdateType::Add => Self::lock(who, poll_index, vote),
			LockUpdateType::Remove => Self::unlock_funds(who, poll_index, vote),
		}
	}

	fn lock(who: &AccountIdOf<T>, poll_index: PollIndexOf<T>, vote: &VoteOf<T>) -> DispatchResult {
		let reason = FreezeReason::VoteCasted.into();
		match vote {
			Vote::AssetBalance(_, asset, amount) => {
				CommunityVoteLocks::<T>::insert(who, poll_index, vote.clone());
				let frozen = T::AssetsFreezer::balance_frozen(asset.clone(), &reason, who);
				T::AssetsFreezer::set_frozen(asset.clone(), &reason, who, frozen.max(*amount), Polite)
			}
			Vote::NativeBalance(_, amount) => {
				CommunityVoteLocks::<T>::insert(who, poll_index, vote.clone());
				let frozen = T::Balances::balance_frozen(&reason, who);
				T::Balances::set_frozen(&reason, who, frozen.max(*amount), Polite)
			}
			Vote::Standard(_) => Ok(()),
		}
	}

	fn unlock_funds(who: &AccountIdOf<T>, poll_index: PollIndexOf<T>, vote: &VoteOf<T>) -> DispatchResult {
		let reason = FreezeReason::VoteCasted.into();
		match vote {
			Vote::AssetBalance(_, asset, _) => {
				CommunityVoteLocks::<T>::remove(who, poll_index);
				let rest = CommunityVoteLocks::<T>::iter_prefix_values(who)
					.filter_map(|v| match v {
						Vote::AssetBalance(_, id, amount) if &id == asset => Some(amount),
						_ => None,
					})
					.max()
					.unwrap_or_default();
				T::AssetsFreezer::set_frozen(asset.clone(), &reason, who, rest, Polite)
			}
			Vote::NativeBalance(..) => {
				CommunityVoteLocks::<T>::remove(who, poll_index);
				let rest = CommunityVoteLocks::<T>::iter_prefix_values(who)
					.filter_map(|v| if let Vote::NativeBalance(_, amount) = v { Some(amount) } else { None })
					.fold(Default::default(), |a: NativeBalanceOf<T>, b| a.max(b));
				T::Balances::set_frozen(&reason, who, rest, Polite)
			}
			Vote::Standard(_) => Ok(()),
		}
	}

'''), ''))
q('locks-helper-generic', (FN, '''				for locked_vote in CommunityVoteLocks::<T>::iter_prefix_values(who) {
					if let Vote::NativeBalance(_, amount) = locked_vote {
						amount_to_freeze = amount_to_freeze.max(amount)
					}
				}
''', '''				CommunityVoteLocks::<T>::iter_prefix_values(who).for_each(|locked| {
					amount_to_freeze = match locked {
						Vote::NativeBalance(_, amount) if amount > amount_to_freeze => amount,
						_ => amount_to_freeze,
					};
				});
'''))
q('locks-early', (FN, '''		match vote.clone() {
			Vote::AssetBalance(..) | Vote::NativeBalance(..) => match update_type {
				LockUpdateType::Add => CommunityVoteLocks::<T>::insert(who, poll_index, vote.clone()),
				LockUpdateType::Remove => CommunityVoteLocks::<T>::remove(who, poll_index),
			},
			_ => (),
		}
''', '''		if matches!(vote, Vote::Standard(_)) {
			return Ok(());
		}
		if update_type == LockUpdateType::Add {
			CommunityVoteLocks::<T>::insert(who, poll_index, vote.clone());
		} else {
			CommunityVoteLocks::<T>::remove(who, poll_index);
		}
'''))
q('multiplier-shared', (FN, lambda t: t.replace('''			let vote_multiplier = match CommunityDecisionMethod::<T>::get(community_id) {
				DecisionMethod::Rank => T::MemberMgmt::rank_of(community_id, membership_id)
					.unwrap_or_default()
					.into(),
				_ => 1,
			};
''', '''			let vote_multiplier = Self::multiplier(decision_method, community_id, membership_id);
''').replace('''			let vote_multiplier = match decision_method {
				DecisionMethod::Rank => T::MemberMgmt::rank_of(community_id, membership_id)
					.unwrap_or_default()
					.into(),
				_ => 1,
			};
''', '''			let vote_multiplier = Self::multiplier(decision_method, community_id, membership_id);
''').replace('	pub(crate) fn update_locks(', '''	fn multiplier(method: &DecisionMethodFor<T>, community: &CommunityIdOf<T>, membership: &MembershipIdOf<T>) -> VoteWeight {
		if let DecisionMethod::Rank = method {
			Self::member_rank(community, membership).into()
		} else {
			1
		}
	}

	pub(crate) fn update_locks('''), ''))
q('tally-signed', (FN, lambda t: t.replace(cut(t, '	pub(self) fn add_vote(', '	pub(self) fn remove_vote('), '''	pub(self) fn add_vote(&mut self, say_aye: bool, multiplied_weight: VoteWeight, weight: VoteWeight) {
		let side = if say_aye { &mut self.ayes } else { &mut self.nays };
		*side = side.saturating_add(multiplied_weight);
		if say_aye {
			self.bare_ayes = weight.saturating_add(self.bare_ayes);
		}
	}

'''), ''))
q('tally-shared', (FN, lambda t: t.replace(t[t.index('impl<T: Config> Tally<T> {'):], '''impl<T: Config> Tally<T> {
	fn update(&mut self, aye: bool, multiplied: VoteWeight, bare: VoteWeight, op: impl Fn(VoteWeight, VoteWeight) -> VoteWeight) {
		if aye {
			self.ayes = op(self.ayes, multiplied);
			self.bare_ayes = op(self.bare_ayes, bare);
		} else {
			self.nays = op(self.nays, multiplied);
		}
	}

	pub(self) fn add_vote(&mut self, say_aye: bool, multiplied_weight: VoteWeight, weight: VoteWeight) {
		self.update(say_aye, multiplied_weight, weight, |a, b| a.saturating_add(b));
	}

	pub(self) fn remove_vote(&mut self, say_aye: bool, multiplied_weight: VoteWeight, weight: VoteWeight) {
		self.update(say_aye, multiplied_weight, weight, VoteWeight::saturating_sub);
	}
}
'''), ''))
q('tally-moved', (FN, lambda t: t[:t.index('impl<T: Config> Tally<T> {')], ''), (TYP, '''#[derive(PartialEq)]
pub enum LockUpdateType {''', src(FN)[src(FN).index('impl<T: Config> Tally<T> {'):].replace('pub(self) fn', 'pub(crate) fn') + '''
#[derive(PartialEq)]
pub enum LockUpdateType {'''))
q('vote-type-method', (TYP, '''	pub fn weight(&self) -> VoteWeight {''', '''	/// opinion if the vote is of the kind the method asks for
	pub fn say_for(&self, method: &DecisionMethod<A, B>) -> Option<bool>
	where
		A: PartialEq,
	{
		match (self, method) {
			(Vote::AssetBalance(say, mine, _), DecisionMethod::CommunityAsset(theirs, _)) if mine == theirs => Some(*say),
			(Vote::NativeBalance(say, _), DecisionMethod::NativeToken) => Some(*say),
			(Vote::Standard(say), DecisionMethod::Membership) | (Vote::Standard(say), DecisionMethod::Rank) => Some(*say),
			_ => None,
		}
	}

	pub fn weight(&self) -> VoteWeight {'''), (FN, lambda t: t.replace(cut(t, '			let say = *match (vote, decision_method) {', '			let vote_weight = VoteWeight::from(vote);'), '''			let say = vote.say_for(decision_method).ok_or(Error::<T>::InvalidVoteType)?;
			if let (Vote::AssetBalance(_, _, amount), DecisionMethod::CommunityAsset(_, min)) = (vote, decision_method) {
				ensure!(amount >= min, Error::<T>::VoteBelowMinimum);
			}

'''), ''))
q('poll-class-helper', (FN, '''			let (tally, class) = poll_status.ensure_ongoing().ok_or(Error::<T>::NotOngoing)?;
			ensure!(community_id == &class, Error::<T>::InvalidTrack);
''', '''			let Some((tally, class)) = poll_status.ensure_ongoing() else {
				fail!(Error::<T>::NotOngoing);
			};
			if class != *community_id {
				fail!(Error::<T>::InvalidTrack);
			}
'''))
q('poll-status-match', (FN, '''			let (tally, class) = poll_status.ensure_ongoing().ok_or(Error::<T>::NotOngoing)?;
			ensure!(community_id == &class, Error::<T>::InvalidTrack);

			let (vote, voter)''', '''			let tally = match poll_status.ensure_ongoing() {
				Some((tally, class)) if class == *community_id => tally,
				Some(_) => return Err(Error::<T>::InvalidTrack.into()),
				None => return Err(Error::<T>::NotOngoing.into()),
			};

			let (vote, voter)'''))
q('member-community', (LB, '''			let community_id = T::MemberMgmt::check_membership(&who, &membership_id).ok_or(Error::<T>::NotAMember)?;
			let decision_method = CommunityDecisionMethod::<T>::get(community_id);
''', '''			let (community_id, decision_method) = Self::community_of(&who, &membership_id)?;
'''), (FN, '	pub fn is_member(', '''	/// community of a membership of an account, and how it decides
	pub(crate) fn community_of(
		who: &AccountIdOf<T>,
		membership: &MembershipIdOf<T>,
	) -> Result<(CommunityIdOf<T>, DecisionMethodFor<T>), DispatchError> {
		T::MemberMgmt::check_membership(who, membership)
			.map(|id| (id, CommunityDecisionMethod::<T>::get(id)))
			.ok_or_else(|| Error::<T>::NotAMember.into())
	}

	pub fn is_member('''))
q('rank-closure', (LB, lambda t: t.replace(cut(t, '			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)\n				.ok_or(Error::<T>::NotAMember)?\n				.promote_by(ONE);', '			Self::deposit_event(Event::MembershipRankUpdated'), '''			let rank = Self::change_rank(&community_id, &membership_id, |r| r.promote_by(ONE))?;

''', 1).replace(cut(t, '			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)\n				.ok_or(Error::<T>::NotAMember)?\n				.demote_by(ONE);', '			Self::deposit_event(Event::MembershipRankUpdated'), '''			let rank = Self::change_rank(&community_id, &membership_id, |r| r.demote_by(ONE))?;

''', 1), ''), (FN, '	pub fn is_member(', '''	pub(crate) fn change_rank(
		community_id: &T::CommunityId,
		membership_id: &MembershipIdOf<T>,
		change: impl FnOnce(GenericRank) -> GenericRank,
	) -> Result<GenericRank, DispatchError> {
		use fc_traits_memberships::Rank as _;
		let before = T::MemberMgmt::rank_of(community_id, membership_id).ok_or(Error::<T>::NotAMember)?;
		let after = change(before);
		T::MemberMgmt::set_rank(community_id, membership_id, after)?;
		Ok(after)
	}

	pub fn is_member('''))
q('admin-swap-fn', (LB, lambda t: t.replace(cut(t, '			ensure!(\n				CommunityIdFor::<T>::get(origin.clone().caller()) == Some(community_id)', '			Self::deposit_event(Event::AdminOriginSet'), '''			let current = origin.caller().clone();
			if CommunityIdFor::<T>::get(&current) != Some(community_id) {
				return Err(DispatchError::BadOrigin);
			}
			CommunityIdFor::<T>::remove(&current);
			if CommunityIdFor::<T>::get(&admin_origin).is_some() {
				return Err(Error::<T>::AlreadyAdmin.into());
			}
			CommunityIdFor::<T>::insert(&admin_origin, community_id);

'''), ''))
q('decision-asset-helper', (LB, lambda t: t.replace(cut(t, '			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {', '			CommunityDecisionMethod::<T>::set('), '''			Self::ensure_voting_asset(&decision_method);
'''), ''), (FN, '	pub fn is_member(', '''	pub(crate) fn ensure_voting_asset(method: &DecisionMethodFor<T>) {
		let DecisionMethod::CommunityAsset(asset, min_vote) = method else {
			return;
		};
		let owner = T::PalletId::get().into_account_truncating();
		if <T::Assets as frame_support::traits::fungibles::Create<T::AccountId>>::create(asset.clone(), owner, false, *min_vote).is_err() {
			// it exists
		}
	}

	pub fn is_member('''))
q('register-checks', (FN, '''		ensure!(
			!Self::community_exists(community_id),
			Error::<T>::CommunityAlreadyExists
		);
		ensure!(!CommunityIdFor::<T>::contains_key(admin), Error::<T>::AlreadyAdmin);
''', '''		match (Info::<T>::get(community_id), CommunityIdFor::<T>::get(admin)) {
			(None, None) => (),
			(Some(_), _) => fail!(Error::<T>::CommunityAlreadyExists),
			(None, Some(_)) => fail!(Error::<T>::AlreadyAdmin),
		}
'''))
q('register-map', (FN, '''		if let Some((deposit, depositor, depositee)) = maybe_deposit {
			T::Balances::transfer(
				&depositor,
				&depositee,
				deposit,
				frame_support::traits::tokens::Preservation::Preserve,
			)?;
		}
''', '''		use frame_support::traits::tokens::Preservation::Preserve;
		maybe_deposit
			.map(|(deposit, from, to)| T::Balances::transfer(&from, &to, deposit, Preserve))
			.transpose()?;
'''))
q('origin-split', (OR, lambda t: t.replace(cut(t, '		use frame_system::RawOrigin::{None, Root};', '	#[cfg(feature = "runtime-benchmarks")]\n	fn try_successful_origin() -> Result<RuntimeOriginFor<T>, ()> {\n		use crate::BenchmarkHelper;\n		Ok(RawOrigin::new'), '''		match o.as_system_ref() {
			Some(frame_system::RawOrigin::Root) => return Err(o),
			Some(frame_system::RawOrigin::None) => return Err(o),
			_ => {}
		}
		let named: Result<RawOrigin<T>, RuntimeOriginFor<T>> = o.clone().into();
		let found = match named {
			Ok(raw) => Some(raw.id()),
			Err(other) => CommunityIdFor::<T>::get(other.into_caller()),
		};
		let Some(id) = found else {
			return Err(o);
		};
		match Info::<T>::get(id) {
			Some(info) if info.state == Active => Ok(id),
			_ => Err(o),
		}
	}

'''), ''))
q('member-then', (OR, '''				if T::MemberMgmt::is_member_of(community_id, &who) {
					Ok(())
				} else {
					Err(o.clone())
				}
''', '''				T::MemberMgmt::is_member_of(community_id, &who).then_some(()).ok_or(o)
'''))
q('subset-helper', (OR, lambda t: t.replace(cut(t, '		let part = match o.subset {', '		Ok(Plurality {'), '''		let part = o.subset.map_or(Ok(BodyPart::Voice), |subset| match subset {
			Subset::Member(_) => Ok(BodyPart::Members { count: 1 }),
			Subset::Members { count } => Ok(BodyPart::Members { count }),
			Subset::Fraction(per) => Ok(BodyPart::Fraction {
				nom: per.deconstruct(),
				denom: <Permill as sp_runtime::PerThing>::ACCURACY,
			}),
			Subset::AtLeastRank(_) => Err(()),
		})?;
'''), ''))
q('junction-build', (OR, '''		let mut origin = RawOrigin::new(id.into());
		if let Some(s) = subset {
			origin.with_subset(s);
		}
		Ok(origin)
''', '''		Ok(RawOrigin {
			community_id: id.into(),
			subset,
		})
'''))
q('support-split', (IM, '''		Perbill::from_rational(self.bare_ayes, Self::max_support(community_id))
''', '''		let all = Self::max_support(community_id);
		let Tally { bare_ayes, .. } = self;
		Perbill::from_rational(*bare_ayes, all)
'''))
q('approval-as', (IM, '''		let (ayes, nays) = (u64::from(self.ayes), u64::from(self.nays));
		Perbill::from_rational(ayes, 1.max(ayes + nays))
''', '''		let ayes = self.ayes as u64;
		let total = ayes.saturating_add(self.nays as u64);
		if total == 0 {
			return Perbill::from_rational(0u64, 1u64);
		}
		Perbill::from_rational(ayes, total)
'''))
q('max-support-if', (TYP, lambda t: t.replace(cut(t, '		match CommunityDecisionMethod::<T>::get(community_id) {', '	}\n}\n\n#[derive(PartialEq)]\npub enum Lock'), '''		let method = CommunityDecisionMethod::<T>::get(community_id);
		let issuance: VoteWeight = match &method {
			DecisionMethod::NativeToken => T::Balances::total_issuance().saturated_into(),
			DecisionMethod::CommunityAsset(asset, _min) => T::Assets::total_issuance(asset.clone()).saturated_into(),
			DecisionMethod::Membership => return T::MemberMgmt::members_total(&community_id),
			DecisionMethod::Rank => return T::MemberMgmt::ranks_total(&community_id),
		};
		issuance
'''), ''))
q('vote-say-let', (TYP, '''		*match self {
			Vote::AssetBalance(say, _, _) => say,
			Vote::NativeBalance(say, _) => say,
			Vote::Standard(say) => say,
		}
''', '''		let (Self::AssetBalance(say, ..) | Self::NativeBalance(say, ..) | Self::Standard(say)) = self;
		*say
'''))
q('mgr-steps', (MG, lambda t: t.replace(cut(t, '			// Create governance track for community\n', '			// Induct community'), '''			Self::open_track(community_id, community_name, maybe_track_info)?;
''').replace('		fn default_tack(', '''		fn open_track(id: CommunityIdOf<T>, name: &str, info: Option<TrackInfoOf<T>>) -> DispatchResult {
			let origin: RuntimeOriginFor<T> = CommunityOrigin::<T>::new(id).into();
			let info = match info {
				Some(given) => given,
				None => Self::default_tack(name),
			};
			T::Tracks::insert(id, info, origin.into_caller())
		}

		fn default_tack('''), ''))
q('mgr-mint-try', (MG, lambda t: t.replace(cut(t, '			let mut id = starting_at.clone();', '			Self::deposit_event(Event::<T>::MembershipsCreated'), '''			let collection = T::MembershipsManagerCollectionId::get();
			let owner = T::MembershipsManagerOwner::get();
			let mut next = Some(starting_at.clone());
			let mut minted: u32 = 0;
			while minted < u32::from(amount) {
				let Some(id) = next else { break };
				T::CreateMemberships::mint_into(&collection, &id, &owner, &Default::default(), true)?;
				T::CreateMemberships::set_price(&collection, &id, &owner, Some(price), None)?;
				minted += 1;
				next = id.increment();
			}

'''), ''))
q('mgr-curve', (MG, lambda t: t.replace('''				min_approval: pallet_referenda::Curve::LinearDecreasing {
					length: Perbill::from_percent(100),
					floor: Perbill::from_percent(50),
					ceil: Perbill::from_percent(100),
				},
				min_support: pallet_referenda::Curve::LinearDecreasing {
					length: Perbill::from_percent(100),
					floor: Perbill::from_percent(0),
					ceil: Perbill::from_percent(50),
				},
''', '''				min_approval: Self::falling(50, 100),
				min_support: Self::falling(0, 50),
''').replace('		fn default_tack(', '''		fn falling(floor: u32, ceil: u32) -> pallet_referenda::Curve {
			use sp_runtime::Perbill;
			let percent = Perbill::from_percent;
			pallet_referenda::Curve::LinearDecreasing { length: percent(100), floor: percent(floor), ceil: percent(ceil) }
		}

		fn default_tack('''), ''))
q('unlock-helper', (LB, '''			ensure!(T::Polls::as_ongoing(poll_index).is_none(), Error::<T>::AlreadyOngoing);
			let vote = CommunityVoteLocks::<T>::get(&who, poll_index).ok_or(Error::<T>::NoLocksInPlace)?;
			Self::update_locks(&who, poll_index, &vote, LockUpdateType::Remove)
''', '''			match T::Polls::as_ongoing(poll_index) {
				Some(_) => Err(Error::<T>::AlreadyOngoing.into()),
				None => CommunityVoteLocks::<T>::get(&who, poll_index)
					.ok_or_else(|| DispatchError::from(Error::<T>::NoLocksInPlace))
					.and_then(|vote| Self::update_locks(&who, poll_index, &vote, LockUpdateType::Remove)),
			}
'''))
q('vote-event-first', (LB, '''			Self::try_vote(&community_id, &decision_method, &who, &membership_id, poll_index, &vote)?;
			Self::deposit_event(Event::<T>::VoteCasted {
				who: who.clone(),
				poll_index,
				vote,
			});
			Ok(())
''', '''			let result = Self::try_vote(&community_id, &decision_method, &who, &membership_id, poll_index, &vote);
			if result.is_ok() {
				Self::deposit_event(Event::VoteCasted { who, poll_index, vote });
			}
			result
'''))
q('dispatch-runtime-origin', (FN, '''		let community_account = Self::community_account(community_id);
		let signer = frame_system::RawOrigin::Signed(community_account);

		let post = call.dispatch(signer.into()).map_err(|e| e.error)?;
		Ok(post)
''', '''		match call.dispatch(frame_system::RawOrigin::Signed(Self::community_account(community_id)).into()) {
			Ok(post) => Ok(post),
			Err(e) => Err(e.error.into()),
		}
'''))
