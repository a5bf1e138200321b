R = 'runtime/kreivo/src/'
LIB, IMPL, XCM, XC = R + 'lib.rs', R + 'impls.rs', R + 'xcm_config.rs', R + 'xcm_config/communities.rs'
ORI, PAY, CON, SYS = R + 'governance/origins.rs', R + 'payments.rs', R + 'contracts.rs', R + 'configuration/system_support.rs'
MON, CG, CM, CMM = R + 'configuration/monetary_stuff.rs', R + 'communities/governance.rs', R + 'communities/mod.rs', R + 'communities/memberships.rs'
KG, KM, KT, CST = R + 'collective/governance.rs', R + 'collective/mod.rs', R + 'collective/tracks.rs', R + 'constants.rs'
XW, RC, CONST = R + 'weights/xcm/mod.rs', 'runtime/common/src/impls.rs', 'runtime/runtime-constants/src/lib.rs'
SL, SM, SV, MAIN = 'chain-spec-generator/src/spec/local.rs', 'chain-spec-generator/src/spec/mod.rs', 'chain-spec-generator/src/spec/live/mod.rs', 'chain-spec-generator/src/main.rs'
PLIB, CLIB, MLIB = 'pallets/payments/src/lib.rs', 'pallets/communities/src/lib.rs', 'pallets/communities-manager/src/lib.rs'
APIS = R + 'apis.rs'
ALL = ['R%02d' % i for i in range(1, 30)]
CASES = []


def q(id, *edits, props=None):
    CASES.append({'id': 'q-' + id, 'edits': list(edits), 'expect': 'quiet', 'props': props or ALL})


def b(id, fires, *edits):
    CASES.append({'id': 'b-' + id, 'edits': list(edits), 'expect': 'caught', 'fires': fires, 'props': fires})


# ------------------------------------------------------------------ behaviour-preserving
q('comment', *[(f, '$END', '\n// a note\n') for f in (LIB, IMPL, XCM, XC, ORI, PAY, CON, SYS, MON, CG, CM, CMM, KG, KM, KT, CST, XW, RC, CONST, SL, SM, SV, MAIN)])
q('noop', (XC, '		let origin = pallet_communities::Origin::<T>::new(community_id);\n', '		let _ = ();\n		let origin = pallet_communities::Origin::<T>::new(community_id);\n'),
  (SYS, '		let now = System::block_number();\n', '		let now = System::block_number();\n		let _unused = 0;\n'),
  (PAY, '		let idx = System::extrinsic_index()?;\n', '		let idx = System::extrinsic_index()?;\n		let _ = &block;\n'),
  (XW, '		let hardcoded_weight =', '		let _ = 1u8;\n		let hardcoded_weight ='),
  (KT, '	fn track_for(id: &Self::RuntimeOrigin) -> Result<Self::Id, ()> {\n', '	fn track_for(id: &Self::RuntimeOrigin) -> Result<Self::Id, ()> {\n		let _ = 0;\n'))
# R01
q('pallets-reordered', (LIB, '''	#[runtime::pallet_index(2)]
	pub type Timestamp = pallet_timestamp;
''', ''), (LIB, '''	#[runtime::pallet_index(80)]
	pub type Contracts = pallet_contracts;
''', '''	#[runtime::pallet_index(80)]
	pub type Contracts = pallet_contracts;
	#[runtime::pallet_index(2)]
	pub type Timestamp = pallet_timestamp;
'''))
q('pallet-added', (LIB, '''	// Contracts
	#[runtime::pallet_index(80)]''', '''	#[runtime::pallet_index(79)]
	pub type Remarks = pallet_remark;

	// Contracts
	#[runtime::pallet_index(80)]'''), props=['R01'])
b('index-swap', ['R01'], (LIB, 'pallet_index(72)]\n	pub type CommunityTracks', 'pallet_index(73)]\n	pub type CommunityTracks'),
  (LIB, 'pallet_index(73)]\n	pub type CommunityReferenda', 'pallet_index(72)]\n	pub type CommunityReferenda'))
b('index-moved', ['R01'], (LIB, 'pallet_index(60)', 'pallet_index(61)'))
b('index-instance', ['R01'], (LIB, 'pub type CommunityReferenda = pallet_referenda<Instance2>', 'pub type CommunityReferenda = pallet_referenda<Instance1>'),
  (LIB, 'pub type KreivoReferenda = pallet_referenda<Instance1>', 'pub type KreivoReferenda = pallet_referenda<Instance2>'))
# R02
q('origin-alias', (LIB, '	type ScheduleOrigin = EnsureRoot<AccountId>;\n', '	type ScheduleOrigin = RootOnly;\n'), (LIB, '$END', '\ntype RootOnly = EnsureRoot<AccountId>;\n'))
q('origin-alias-generic', (LIB, '	type ManagerOrigin = EnsureRoot<AccountId>;\n', '	type ManagerOrigin = RootOnly<AccountId>;\n'), (LIB, '$END', '\npub type RootOnly<A> = frame_system::EnsureRoot<A>;\n'))
q('force-origin-inline', (MON, '	type ForceOrigin = AssetsForceOrigin;\n', '	type ForceOrigin = EnsureRoot<Self::AccountId>;\n'))
q('either-swapped', (LIB, '	EitherOfDiverse<EnsureRoot<AccountId>, EnsureXcm<IsVoiceOfBody<RelayLocation, StakingAdminBodyId>>>;', '	EitherOfDiverse<EnsureXcm<IsVoiceOfBody<RelayLocation, StakingAdminBodyId>>, EnsureRoot<AccountId>>;'))
q('never-other-spelling', (MON, 'AsEnsureOriginWithArg<NeverEnsureOrigin<AccountId>>', 'AsEnsureOriginWithArg<frame_system::EnsureNever<AccountId>>'))
b('assets-create-signed', ['R02'], (MON, 'AsEnsureOriginWithArg<NeverEnsureOrigin<AccountId>>', 'AsEnsureOriginWithArg<frame_system::EnsureSigned<AccountId>>'))
b('force-signed', ['R02'], (MON, 'pub type AssetsForceOrigin = EnsureRoot<AccountId>;', 'pub type AssetsForceOrigin = frame_system::EnsureSigned<AccountId>;'))
b('treasury-spend', ['R02'], (LIB, 'type SpendOrigin = frame_support::traits::NeverEnsureOrigin<Balance>;', 'type SpendOrigin = frame_system::EnsureRootWithSuccess<AccountId, ProposalBondMaximum>;'))
b('xcm-admin', ['R02'], (XCM, 'type AdminOrigin = EnsureRoot<AccountId>;', 'type AdminOrigin = frame_system::EnsureSigned<AccountId>;'))
b('collective-add', ['R02'], (KM, 'type AddOrigin = EnsureNever<()>;', 'type AddOrigin = frame_system::EnsureSigned<AccountId>;'))
b('kill-canceller', ['R02'], (KG, 'type KillOrigin = ReferendumKiller;', 'type KillOrigin = ReferendumCanceller;'))
b('tracks-admin', ['R02'], (CG, 'type AdminOrigin = EnsureRoot<AccountId>;', 'type AdminOrigin = frame_system::EnsureSigned<AccountId>;'))
b('community-create', ['R02'], (CM, 'type CreateOrigin = EnsureNever<CreationPayment>;', 'type CreateOrigin = EitherOf<RootCreatesCommunitiesForFree, AnyoneElsePays>;'))
b('community-cancel', ['R02'], (CG, 'type CancelOrigin = EnsureRoot<AccountId>;', 'type CancelOrigin = EitherOfDiverse<EnsureRoot<AccountId>, frame_system::EnsureSigned<AccountId>>;'))
b('collator-body', ['R02'], (LIB, 'StakingAdminBodyId: BodyId = BodyId::Defense;', 'StakingAdminBodyId: BodyId = BodyId::Unit;'))
b('nfts-create', ['R02'], (CMM, 'type CreateOrigin = EnsureRootWithSuccess<AccountId, TreasuryAccount>;', 'type CreateOrigin = frame_system::EnsureSigned<AccountId>;'))
# R03
q('proxy-helper', (IMPL, '''			ProxyType::Collator => matches!(
				c,
				RuntimeCall::CollatorSelection { .. } | RuntimeCall::Utility { .. } | RuntimeCall::Multisig { .. }
			),
''', '''			ProxyType::Collator => matches!(c, RuntimeCall::CollatorSelection { .. }) || wraps(c),
'''), (IMPL, '$END', '''
fn wraps(c: &RuntimeCall) -> bool {
	match c {
		RuntimeCall::Utility(..) => true,
		RuntimeCall::Multisig(..) => true,
		_ => false,
	}
}
'''))
q('proxy-if-chain', (IMPL, '''			ProxyType::NonTransfer => !matches!(c, RuntimeCall::Balances { .. } | RuntimeCall::Assets { .. }),
''', '''			ProxyType::NonTransfer => {
				if let RuntimeCall::Balances(_) = c {
					return false;
				}
				if let RuntimeCall::Assets(_) = c {
					return false;
				}
				true
			}
'''))
q('proxy-self-names', (IMPL, '''			(ProxyType::Assets, ProxyType::AssetOwner) => true,
			(ProxyType::Assets, ProxyType::AssetManager) => true,
''', '''			(Self::Assets, Self::AssetOwner | Self::AssetManager) => true,
'''))
q('proxy-nested-or', (IMPL, '''				RuntimeCall::Assets(KreivoAssetsCall::mint { .. })
					| RuntimeCall::Assets(KreivoAssetsCall::burn { .. })
''', '''				RuntimeCall::Assets(KreivoAssetsCall::mint { .. } | KreivoAssetsCall::burn { .. })
'''))
q('superset-if', (IMPL, '''		match (self, o) {
			(x, y) if x == y => true,
			(ProxyType::Any, _) => true,
''', '''		if self == o {
			return true;
		}
		match (self, o) {
			(ProxyType::Any, _) => true,
'''))
q('superset-matches', (IMPL, '''		match (self, o) {
			(x, y) if x == y => true,
			(ProxyType::Any, _) => true,
			(_, ProxyType::Any) => false,
			(ProxyType::Assets, ProxyType::AssetOwner) => true,
			(ProxyType::Assets, ProxyType::AssetManager) => true,
			(ProxyType::NonTransfer, ProxyType::Collator) => true,
			_ => false,
		}
''', '''		self == o
			|| *self == ProxyType::Any
			|| matches!(
				(self, o),
				(ProxyType::Assets, ProxyType::AssetOwner | ProxyType::AssetManager)
					| (ProxyType::NonTransfer, ProxyType::Collator)
			)
'''))
q('nontransfer-tighter', (IMPL, '''!matches!(c, RuntimeCall::Balances { .. } | RuntimeCall::Assets { .. }),''', '''!matches!(c, RuntimeCall::Balances { .. } | RuntimeCall::Assets { .. } | RuntimeCall::Vesting { .. }),'''))
b('proxy-any-transfer', ['R03'], (IMPL, '!matches!(c, RuntimeCall::Balances { .. } | RuntimeCall::Assets { .. }),', '!matches!(c, RuntimeCall::Balances { .. }),'))
b('proxy-manager-transfer', ['R03'], (IMPL, '''					| RuntimeCall::Assets(KreivoAssetsCall::burn { .. })
''', '''					| RuntimeCall::Assets(KreivoAssetsCall::burn { .. })
					| RuntimeCall::Assets(KreivoAssetsCall::force_transfer { .. })
'''))
b('proxy-owner-mint', ['R03'], (IMPL, '''					| RuntimeCall::Assets(KreivoAssetsCall::set_team { .. })
''', '''					| RuntimeCall::Assets(KreivoAssetsCall::set_team { .. })
					| RuntimeCall::Assets(KreivoAssetsCall::mint { .. })
'''))
b('superset-old', ['R03'], (IMPL, '(ProxyType::NonTransfer, ProxyType::Collator) => true,', '(ProxyType::NonTransfer, ProxyType::Collator) => true,\n			(ProxyType::NonTransfer, ProxyType::AssetOwner) => true,'))
b('superset-swapped', ['R03'], (IMPL, '(ProxyType::Assets, ProxyType::AssetOwner) => true,', '(ProxyType::AssetOwner, ProxyType::Assets) => true,'))
b('proxy-cancel-any', ['R03'], (IMPL, 'RuntimeCall::Proxy(pallet_proxy::Call::reject_announcement { .. })', 'RuntimeCall::Proxy(..)'))
# R04
q('track-match', (KT, '''		if let Ok(system_origin) = frame_system::RawOrigin::try_from(id.clone()) {
			match system_origin {
				frame_system::RawOrigin::Root => Ok(0),
				_ => Err(()),
			}
		} else if let Ok(custom_origin) = pallet_custom_origins::Origin::try_from(id.clone()) {
			match custom_origin {
				pallet_custom_origins::Origin::ReferendumCanceller => Ok(1),
				pallet_custom_origins::Origin::ReferendumKiller => Ok(2),
				pallet_custom_origins::Origin::CreateMemberships => Ok(3),
			}
		} else {
			Err(())
		}
''', '''		use pallet_custom_origins::Origin as Custom;
		match id {
			OriginCaller::system(frame_system::RawOrigin::Root) => Ok(0),
			OriginCaller::Origins(Custom::ReferendumCanceller) => Ok(1),
			OriginCaller::Origins(Custom::ReferendumKiller) => Ok(2),
			OriginCaller::Origins(Custom::CreateMemberships) => Ok(3),
			_ => Err(()),
		}
'''))
q('track-early-return', (KT, '''		if let Ok(system_origin) = frame_system::RawOrigin::try_from(id.clone()) {
			match system_origin {
				frame_system::RawOrigin::Root => Ok(0),
				_ => Err(()),
			}
		} else if let Ok(custom_origin)''', '''		if let Ok(system_origin) = frame_system::RawOrigin::try_from(id.clone()) {
			return if matches!(system_origin, frame_system::RawOrigin::Root) { Ok(0) } else { Err(()) };
		}
		if let Ok(custom_origin)'''))
q('track-param', (KT, 'decision_deposit: 10 * UNITS,', 'decision_deposit: 20 * UNITS,'), props=[x for x in ALL if x != 'R18'])
q('ensure-track-if', (CG, '''		ensure!(&track_id_for_origin == id, o);

		Ok(())
''', '''		if track_id_for_origin != *id {
			return Err(o);
		}
		Ok(())
'''))
q('ensure-track-match', (CG, '''		let track_id_for_origin: TrackIdOf<Runtime, CommunityTracksInstance> =
			CommunityTracks::track_for(&o.clone().caller).map_err(|_| o.clone())?;
		ensure!(&track_id_for_origin == id, o);

		Ok(())
''', '''		match CommunityTracks::track_for(&o.caller) {
			Ok(own) if own == *id => Ok(()),
			_ => Err(o),
		}
'''))
q('member-ifelse', (CG, '''		match o.clone().into() {
			Ok(Signed(who)) => {
				if T::MemberMgmt::is_member_of(&community_id, &who) {
					Ok(who)
				} else {
					Err(o.clone())
				}
			}
			_ => Err(o),
		}
''', '''		match o.clone().into() {
			Ok(Signed(who)) if T::MemberMgmt::is_member_of(&community_id, &who) => Ok(who),
			_ => Err(o),
		}
'''))
q('origins-written-out', (ORI, '''					o.into().and_then(|o| match o {
						Origin::$name => Ok($success),
						r => Err(O::from(r)),
					})
''', '''					match o.into() {
						Ok(Origin::$name) => Ok($success),
						Ok(r) => Err(O::from(r)),
						Err(o) => Err(o),
					}
'''))
b('track-swap', ['R04'], (KT, 'Origin::ReferendumCanceller => Ok(1)', 'Origin::ReferendumCanceller => Ok(2)'), (KT, 'Origin::ReferendumKiller => Ok(2)', 'Origin::ReferendumKiller => Ok(1)'))
b('track-signed', ['R04'], (KT, '''				frame_system::RawOrigin::Root => Ok(0),
				_ => Err(()),
''', '''				frame_system::RawOrigin::Root => Ok(0),
				frame_system::RawOrigin::Signed(_) => Ok(3),
				_ => Err(()),
'''))
b('track-missing', ['R04'], (KT, 'Origin::CreateMemberships => Ok(3)', 'Origin::CreateMemberships => Ok(4)'))
b('ensure-any', ['R04'], (ORI, 'r => Err(O::from(r)),', '_ => Ok($success),'))
b('update-any-track', ['R04'], (CG, '		ensure!(&track_id_for_origin == id, o);\n', '		ensure!(&track_id_for_origin <= id, o);\n'))
b('member-skip', ['R04'], (CG, '				if T::MemberMgmt::is_member_of(&community_id, &who) {\n', '				if T::MemberMgmt::is_member_of(&community_id, &who) || T::MemberMgmt::members_total(&community_id) == 0 {\n'))
b('submit-anyone', ['R04'], (CG, '''		EnsureCommunityMember<Self, CommunityReferendaInstance>,
''', '''		frame_system::EnsureSigned<AccountId>,
'''))
# R05
q('cmp-match', (IMPL, '''		if left == right {
			return Some(Ordering::Equal);
		}
		match (left, right) {
			// Root is greater than anything.
			(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),
			_ => None,
		}
''', '''		match (left, right) {
			(l, r) if l == r => Some(Ordering::Equal),
			(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),
			_ => None,
		}
'''))
q('cmp-matches', (IMPL, '''		match (left, right) {
			// Root is greater than anything.
			(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),
			_ => None,
		}
''', '''		matches!(left, OriginCaller::system(frame_system::RawOrigin::Root)).then_some(Ordering::Greater)
'''))
q('cmp-else', (IMPL, '''		if left == right {
			return Some(Ordering::Equal);
		}
		match (left, right) {
			// Root is greater than anything.
			(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),
			_ => None,
		}
''', '''		use frame_system::RawOrigin::Root;
		if left.eq(right) {
			Some(Ordering::Equal)
		} else if let OriginCaller::system(Root) = left {
			Some(Ordering::Greater)
		} else {
			None
		}
'''))
b('cmp-none-first', ['R05'], (IMPL, '(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),', '(OriginCaller::system(_), _) => Some(Ordering::Greater),'))
b('cmp-less', ['R05'], (IMPL, '''			_ => None,
		}
	}
}
''', '''			(_, OriginCaller::system(frame_system::RawOrigin::Root)) => Some(Ordering::Less),
			_ => Some(Ordering::Equal),
		}
	}
}
'''))
b('cmp-root-root', ['R05'], (IMPL, '''		if left == right {
			return Some(Ordering::Equal);
		}
		match''', '''		match'''))
# R06
q('lookup-if', (SYS, '''		match s {
			MultiAddress::Id(i) => Ok(i),
			MultiAddress::Index(i) => Ok(Communities::community_account(&i)),
			_ => Err(LookupError),
		}
''', '''		if let MultiAddress::Id(account) = s {
			return Ok(account);
		}
		let MultiAddress::Index(community) = s else {
			return Err(LookupError);
		};
		Ok(Communities::community_account(&community))
'''))
q('plurality-iflet', (XC, '''		match location.unpack() {
			(
				0,
				[Plurality {
					id: BodyId::Index(id), ..
				}],
			) => CommunityId::try_from(*id)
				.ok()
				.map(|id| Communities::community_account(&id)),
			_ => None,
		}
''', '''		let (0, [Plurality { id: BodyId::Index(id), .. }]) = location.unpack() else {
			return None;
		};
		let community: CommunityId = (*id).try_into().ok()?;
		Some(Communities::community_account(&community))
'''))
q('signed-match', (XC, '''		let Some(account_id) = o.clone().into_signer() else {
			return Err(o.clone());
		};
		let Some((pallet_id, community_id)) = PalletId::try_from_sub_account(&account_id) else {
			return Err(o.clone());
		};
		if pallet_id != T::PalletId::get() {
			return Err(o.clone());
		}
		let origin = pallet_communities::Origin::<T>::new(community_id);
''', '''		let account_id = o.clone().into_signer().ok_or_else(|| o.clone())?;
		let community_id = match PalletId::try_from_sub_account(&account_id) {
			Some((pallet_id, id)) if pallet_id == T::PalletId::get() => id,
			_ => return Err(o),
		};
		let origin = pallet_communities::Origin::<T>::new(community_id);
'''))
q('account-to-community-if', (CM, '''		match PalletId::try_from_sub_account(&a) {
			Some((pallet_id, id)) if pallet_id == CommunityPalletId::get() => Ok(id),
			_ => Err(()),
		}
''', '''		let (pallet_id, id) = PalletId::try_from_sub_account(&a).ok_or(())?;
		if pallet_id == CommunityPalletId::get() { Ok(id) } else { Err(()) }
'''))
q('account-to-community-filter', (CM, '''		match PalletId::try_from_sub_account(&a) {
			Some((pallet_id, id)) if pallet_id == CommunityPalletId::get() => Ok(id),
			_ => Err(()),
		}
''', '''		PalletId::try_from_sub_account::<CommunityId>(&a)
			.filter(|(pallet_id, _)| *pallet_id == CommunityPalletId::get())
			.map(|(_, id)| id)
			.ok_or(())
'''))
b('lookup-raw', ['R06'], (SYS, '			_ => Err(LookupError),\n', '			MultiAddress::Address32(a) => Ok(a.into()),\n			_ => Err(LookupError),\n'))
b('plurality-parent', ['R06'], (XC, '''			(
				0,
				[Plurality {''', '''			(
				0 | 1,
				[Plurality {'''))
b('plurality-truncate', ['R06'], (XC, '''			) => CommunityId::try_from(*id)
				.ok()
				.map(|id| Communities::community_account(&id)),
''', '''			) => Some(Communities::community_account(&(*id as CommunityId))),
'''))
b('signed-no-pallet', ['R06'], (XC, '''		if pallet_id != T::PalletId::get() {
			return Err(o.clone());
		}
''', '''		let _: PalletId = pallet_id;
'''))
b('admin-no-pallet', ['R06'], (CM, 'Some((pallet_id, id)) if pallet_id == CommunityPalletId::get() => Ok(id),', 'Some((pallet_id, id)) if pallet_id != PalletId(*b"py/trsry") => Ok(id),'))
# R07
q('prefix-loop', (XCM, '''	prefix.parent_count() == loc.parent_count()
		&& loc.len() >= prefix.len()
		&& prefix
			.interior()
			.iter()
			.zip(loc.interior().iter())
			.all(|(prefix_junction, junction)| prefix_junction == junction)
''', '''	if prefix.parent_count() != loc.parent_count() || loc.len() < prefix.len() {
		return false;
	}
	for (prefix_junction, junction) in prefix.interior().iter().zip(loc.interior().iter()) {
		if prefix_junction != junction {
			return false;
		}
	}
	true
'''))
q('prefix-starts-with', (XCM, '''	prefix.parent_count() == loc.parent_count()
		&& loc.len() >= prefix.len()
		&& prefix
			.interior()
			.iter()
			.zip(loc.interior().iter())
			.all(|(prefix_junction, junction)| prefix_junction == junction)
''', '''	loc.starts_with(prefix)
'''))
q('reserve-order', (XCM, '		&Prefix::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)\n', '		let reserve = Prefix::get();\n		matches_prefix(&reserve, &asset.id.0) && *origin == reserve\n'))
q('reserve-guard', (XCM, '		&ReserveLocation::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)\n', '		if origin != &ReserveLocation::get() {\n			return false;\n		}\n		matches_prefix(&Prefix::get(), &asset.id.0)\n'))
q('reserves-reordered', (XCM, '''	NativeAsset,
	ReserveAssetsFrom<AssetHubLocation>,
	ReserveForeignAssetsFrom<PolkadotLocation, AssetHubLocation>,
''', '''	ReserveForeignAssetsFrom<PolkadotLocation, AssetHubLocation>,
	ReserveAssetsFrom<AssetHubLocation>,
	NativeAsset,
'''))
b('prefix-nolen', ['R07'], (XCM, '		&& loc.len() >= prefix.len()\n', ''))
b('prefix-parents', ['R07'], (XCM, '	prefix.parent_count() == loc.parent_count()\n		&& loc.len()', '	prefix.parent_count() <= loc.parent_count()\n		&& loc.len()'))
b('reserve-no-origin', ['R07'], (XCM, '		&ReserveLocation::get() == origin && matches_prefix', '		matches_prefix(&ReserveLocation::get(), origin) && matches_prefix'))
b('reserve-swapped', ['R07'], (XCM, 'ReserveForeignAssetsFrom<PolkadotLocation, AssetHubLocation>,', 'ReserveForeignAssetsFrom<AssetHubLocation, PolkadotLocation>,'))
b('reserve-everything', ['R07'], (XCM, '	NativeAsset,\n	ReserveAssetsFrom', '	Everything,\n	ReserveAssetsFrom'))
b('teleporter', ['R07'], (XCM, '	type IsTeleporter = ();\n', '	type IsTeleporter = NativeAsset;\n'))
b('teleport-filter', ['R07'], (XCM, '	type XcmTeleportFilter = Nothing;\n', '	type XcmTeleportFilter = Everything;\n'))
b('asset-hub-id', ['R07'], (CST, 'pub const ASSET_HUB_ID: u32 = 1000;', 'pub const ASSET_HUB_ID: u32 = 1002;'))
b('asset-hub-child', ['R07'], (XCM, 'AssetHubLocation: Location = Location::new(1, [Parachain(ASSET_HUB_ID)]);', 'AssetHubLocation: Location = Location::new(0, [Parachain(ASSET_HUB_ID)]);'))
# R08
q('barrier-match', (XCM, '''		matches!(
			t.unpack(),
			(1, [])
				| (
					1,
					[Plurality {
						id: BodyId::Executive,
						..
					}],
				),
		)
''', '''		match t.unpack() {
			(1, []) => true,
			(1, [Plurality { id, .. }]) => *id == BodyId::Executive,
			_ => false,
		}
'''))
q('relay-or', (XC, '''			(1, [AccountId32 { id, network: None }]) => id,
			(1, [AccountId32 { id, network }]) if *network == Network::get() => id,
''', '''			(1, [AccountId32 { id, network }]) if network.is_none() || *network == Network::get() => id,
'''))
q('relay-iflet', (XC, '''		let id = match location.unpack() {
			(1, [AccountId32 { id, network: None }]) => id,
			(1, [AccountId32 { id, network }]) if *network == Network::get() => id,
			_ => return None,
		};

		Some((*id).into())
''', '''		if let (1, [AccountId32 { id, network }]) = location.unpack() {
			if network.is_some() && network != &Network::get() {
				return None;
			}
			return Some(AccountId::from(*id));
		}
		None
'''))
q('barrier-alias', (XCM, '''		(
			AllowTopLevelPaidExecutionFrom<Everything>,
			AllowExplicitUnpaidExecutionFrom<ParentOrParentsExecutivePlurality>,
			// ^^^ Parent and its exec plurality get free execution
		),
''', '''		ComputedBarrier,
'''), (XCM, 'pub type AssetTransactors =', '''type ComputedBarrier = (
	AllowExplicitUnpaidExecutionFrom<ParentOrParentsExecutivePlurality>,
	AllowTopLevelPaidExecutionFrom<Everything>,
);

pub type AssetTransactors ='''))
b('barrier-any-body', ['R08'], (XCM, '						id: BodyId::Executive,\n						..\n', '						id: _,\n						..\n'))
b('barrier-sibling', ['R08'], (XCM, '			(1, [])\n				| (', '			(1, []) | (1, [Parachain(_)])\n				| ('))
b('barrier-unpaid-all', ['R08'], (XCM, 'AllowExplicitUnpaidExecutionFrom<ParentOrParentsExecutivePlurality>', 'AllowExplicitUnpaidExecutionFrom<Everything>'))
b('execute-filter', ['R08'], (XCM, '	type XcmExecuteFilter = Nothing;\n', '	type XcmExecuteFilter = Everything;\n'))
b('send-signed', ['R08'], (XCM, '''	SignedByCommunityToPlurality<Runtime>,
);''', '''	SignedByCommunityToPlurality<Runtime>,
	SignedToAccountId32<RuntimeOrigin, AccountId, RelayNetwork>,
);'''))
b('relay-any-network', ['R08'], (XC, '(1, [AccountId32 { id, network }]) if *network == Network::get() => id,', '(1, [AccountId32 { id, .. }]) => id,'))
b('relay-sibling', ['R08'], (XC, '			_ => return None,\n		};\n', '			(1, [Parachain(_), AccountId32 { id, .. }]) => id,\n			_ => return None,\n		};\n'))
b('relay-not', ['R08'], (XC, 'if *network == Network::get() => id,', 'if *network != Network::get() => id,'))
b('relay-network', ['R08'], (XCM, 'RelayNetwork: Option<NetworkId> = Some(NetworkId::Kusama)', 'RelayNetwork: Option<NetworkId> = Some(NetworkId::Polkadot)'))
# R09
q('fees-match', (PAY, '''		let mut sender_fees = vec![];
		let mut beneficiary_fees = vec![];

		if !is_community(sender) {
			sender_fees.push(default_fee(SENDER_FEE))
		}
		if !is_community(beneficiary) {
			beneficiary_fees.push(default_fee(BENEFICIARY_FEE))
		}
''', '''		let fees_of = |who: &AccountId, fee: Percent| if is_community(who) { vec![] } else { vec![default_fee(fee)] };
		let sender_fees = fees_of(sender, SENDER_FEE);
		let beneficiary_fees = fees_of(beneficiary, BENEFICIARY_FEE);
'''))
b('fees-nearest', ['R09'], (PAY, 'min.max(fee.mul_floor(*amount))', '(fee * *amount).max(min)'))
q('fees-is-some', (PAY, '''			|who| matches!(PalletId::try_from_sub_account::<CommunityId>(who), Some((pid, _)) if pallet_id == pid );
''', '''			|who| PalletId::try_from_sub_account::<CommunityId>(who).is_some_and(|(pid, _)| pid == pallet_id);
'''))
q('fees-map-or', (PAY, '''			|who| matches!(PalletId::try_from_sub_account::<CommunityId>(who), Some((pid, _)) if pallet_id == pid );
''', '''			|who| PalletId::try_from_sub_account::<CommunityId>(who).map_or(false, |(pid, _)| pid == pallet_id);
'''))
q('fees-if-min', (PAY, '''		let default_fee = |fee: Percent| (TreasuryAccount::get(), min.max(fee.mul_floor(*amount)), MANDATORY_FEE);
''', '''		let default_fee = |fee: Percent| {
			let charged = fee.mul_floor(*amount);
			(TreasuryAccount::get(), if charged < min { min } else { charged }, MANDATORY_FEE)
		};
'''))
q('fees-const-window', (PAY, 'ConstU32<{ (2 * 24 * 60 * 60 * 1_000 / MILLISECS_PER_BLOCK) as u32 }>', 'ConstU32<{ 2 * DAYS }>'))
b('fees-swapped', ['R09'], (PAY, 'sender_fees.push(default_fee(SENDER_FEE))', 'sender_fees.push(default_fee(BENEFICIARY_FEE))'), (PAY, 'beneficiary_fees.push(default_fee(BENEFICIARY_FEE))', 'beneficiary_fees.push(default_fee(SENDER_FEE))'))
b('fees-community-swap', ['R09'], (PAY, 'if !is_community(sender) {', 'if !is_community(beneficiary) {'))
b('fees-min', ['R09'], (PAY, 'min.max(fee', 'min.min(fee'))
b('fees-old-bug', ['R09'], (PAY, 'if pallet_id == pid )', 'if pallet_id != pid )'))
b('fees-any-sub', ['R09'], (PAY, '''matches!(PalletId::try_from_sub_account::<CommunityId>(who), Some((pid, _)) if pallet_id == pid )''', '''matches!(PalletId::try_from_sub_account::<CommunityId>(who), Some((_, _)) if pallet_id != PaymentPalletId::get() )'''))
b('fees-optional', ['R09'], (PAY, 'const MANDATORY_FEE: bool = true;', 'const MANDATORY_FEE: bool = false;'))
b('incentive', ['R09'], (PAY, 'INCENTIVE_PERCENTAGE: u8 = 10;', 'INCENTIVE_PERCENTAGE: u8 = 1;'))
b('window', ['R09'], (PAY, '(2 * 24 * 60 * 60 * 1_000 / MILLISECS_PER_BLOCK)', '(2 * 24 * 60 * 1_000 / MILLISECS_PER_BLOCK)'))
# R10
q('id-inline', (PAY, '''		let block: u32 = System::block_number();
		let idx = System::extrinsic_index()?;
		Some((block, idx, beneficiary.encode().as_slice()).into())
''', '''		System::extrinsic_index().map(|idx| {
			let who = beneficiary.encode();
			Self::from((System::block_number(), idx, &who[..]))
		})
'''))
q('id-using-encoded', (PAY, '''		Some((block, idx, beneficiary.encode().as_slice()).into())
''', '''		Some(beneficiary.using_encoded(|bytes| (block, idx, bytes).into()))
'''))
q('id-as-ref', (PAY, '''		Some((block, idx, beneficiary.encode().as_slice()).into())
''', '''		let bytes: &[u8] = beneficiary.as_ref();
		Some((block, idx, bytes).into())
'''))
b('id-sender', ['R10'], (PAY, '	fn next(_: &AccountId, beneficiary: &AccountId)', '	fn next(beneficiary: &AccountId, _: &AccountId)'))
b('id-default-index', ['R10'], (PAY, 'System::extrinsic_index()?;', 'System::extrinsic_index().unwrap_or_default();'))
b('id-swap', ['R10'], (PAY, 'Some((block, idx, beneficiary', 'Some((idx, block, beneficiary'))
b('id-parent', ['R10'], (PAY, 'System::block_number();', 'System::block_number().saturating_sub(1);'))
# R11
q('filter-match', (CON, '''		matches!(call, RuntimeCall::Balances(BalancesCall::transfer_allow_death { .. }))
''', '''		match call {
			RuntimeCall::Balances(BalancesCall::transfer_allow_death { .. }) => true,
			_ => false,
		}
'''))
q('filter-iflet', (CON, '''		matches!(call, RuntimeCall::Balances(BalancesCall::transfer_allow_death { .. }))
''', '''		let RuntimeCall::Balances(inner) = call else { return false };
		matches!(inner, BalancesCall::transfer_allow_death { .. })
'''))
q('instantiate-flat', (CON, '''	type InstantiateOrigin = EitherOf<
		EnsureRootWithSuccess<AccountId, TreasuryAccount>,
		EitherOf<
			AsSignedByStaticCommunity<Runtime, ConstU16<1>>, // Virto
			AsSignedByStaticCommunity<Runtime, ConstU16<2>>, // Kippu
		>,
	>;
''', '''	type InstantiateOrigin = EitherOf<
		EitherOf<Community<2>, Community<1>>,
		EnsureRootWithSuccess<AccountId, TreasuryAccount>,
	>;
'''), (CON, '$END', '\ntype Community<const N: u16> = AsSignedByStaticCommunity<Runtime, ConstU16<N>>;\n'))
b('filter-all-balances', ['R11'], (CON, 'RuntimeCall::Balances(BalancesCall::transfer_allow_death { .. })', 'RuntimeCall::Balances(..)'))
b('filter-utility', ['R11'], (CON, 'transfer_allow_death { .. }))', 'transfer_allow_death { .. }) | RuntimeCall::Utility(..))'))
b('upload-signed', ['R11'], (CON, 'type UploadOrigin = EnsureRootWithSuccess<AccountId, TreasuryAccount>;', 'type UploadOrigin = frame_system::EnsureSigned<AccountId>;'))
b('instantiate-other', ['R11'], (CON, 'ConstU16<2>>, // Kippu', 'ConstU16<0>>, // Kippu'))
b('filter-everything', ['R11'], (CON, '	type CallFilter = AllowBalancesCall;\n', '	type CallFilter = frame_support::traits::Everything;\n'))
# R12
q('challenge-if', (SYS, '''		(*cx < now && *cx >= now.saturating_sub(3)).then_some(())?;
		Self::generate(cx).eq(challenge).then_some(())
''', '''		if *cx >= now || now - *cx > 3 {
			return None;
		}
		if Self::generate(cx) == challenge { Some(()) } else { None }
'''))
q('challenge-range', (SYS, '''		(*cx < now && *cx >= now.saturating_sub(3)).then_some(())?;
''', '''		let recent = now.saturating_sub(3)..now;
		recent.contains(cx).then_some(())?;
'''))
q('challenge-order', (SYS, '''		(*cx < now && *cx >= now.saturating_sub(3)).then_some(())?;
		Self::generate(cx).eq(challenge).then_some(())
''', '''		let expected = Self::generate(cx);
		let known = *cx < now && now.saturating_sub(3) <= *cx;
		(known && &expected[..] == challenge).then(|| ())
'''))
q('challenge-add', (SYS, '(*cx < now && *cx >= now.saturating_sub(3)).then_some(())?;', '(*cx < now && cx.saturating_add(3) >= now).then_some(())?;'))
b('challenge-old', ['R12'], (SYS, '(*cx < now && *cx >= now.saturating_sub(3)).then_some(())?;', '(*cx >= now.saturating_sub(3)).then_some(())?;'))
b('challenge-future', ['R12'], (SYS, '*cx < now &&', '*cx <= now &&'))
b('challenge-four', ['R12'], (SYS, 'now.saturating_sub(3)', 'now.saturating_sub(30)'))
b('challenge-prefix', ['R12'], (SYS, 'Self::generate(cx).eq(challenge).then_some(())', 'Self::generate(cx).starts_with(challenge).then_some(())'))
b('challenge-nohash', ['R12'], (SYS, 'Self::generate(cx).eq(challenge).then_some(())', '(challenge.len() == Self::generate(cx).len()).then_some(())'))
b('dummy-live', ['R12'], (SYS, '''#[cfg(not(feature = "runtime-benchmarks"))]
composite_authenticator!(
	pub Pass<AuthorityFromPalletId<PassPalletId>> {
		WebAuthn,
	}
);
''', '''#[cfg(not(feature = "runtime-benchmarks"))]
composite_authenticator!(
	pub Pass<AuthorityFromPalletId<PassPalletId>> {
		WebAuthn,
		Dummy,
	}
);
'''))
# R13
q('register-swapped', (CM, 'type RegisterOrigin = EitherOf<RootCreatesCommunitiesForFree, AnyoneElsePays>;', 'type RegisterOrigin = EitherOf<AnyoneElsePays, RootCreatesCommunitiesForFree>;'))
q('deposit-const', (CM, 'CommunityDepositAmount: Balance = UNITS / 2;', 'CommunityDepositAmount: Balance = 50 * (UNITS / 100);'))
q('fee-alias', (MON, 'FungibleAdapter<Balances, ResolveTo<TreasuryAccount, Balances>>;', 'FungibleAdapter<Balances, FeesToTreasury>;'), (MON, '$END', '\ntype FeesToTreasury = ResolveTo<TreasuryAccount, Balances>;\n'))
q('author-letelse', (RC, '''		if let Some(author) = pallet_authorship::Pallet::<R>::author() {
			// In case of error: Will drop the result triggering the `OnDrop` of the
			// imbalance.
			let _ = pallet_assets::Pallet::<R, I>::resolve(&author, credit);
		}
''', '''		let Some(author) = pallet_authorship::Pallet::<R>::author() else {
			return;
		};
		pallet_assets::Pallet::<R, I>::resolve(&author, credit).ok();
'''))
b('deposit-amount', ['R13'], (CM, 'CommunityDepositAmount: Balance = UNITS / 2;', 'CommunityDepositAmount: Balance = UNITS / 20;'))
b('deposit-to', ['R13'], (CM, 'EnsureSignedPays<Runtime, CommunityDepositAmount, TreasuryAccount>', 'EnsureSignedPays<Runtime, CommunityDepositAmount, crate::xcm_config::CheckingAccount>'))
b('memberships-anyone', ['R13'], (CM, 'EitherOf<EnsureRoot<AccountId>, CreateMemberships>', 'EitherOf<EnsureRoot<AccountId>, frame_support::traits::MapSuccess<EnsureSigned<AccountId>, ()>>'))
b('memberships-killer', ['R13'], (CM, 'EitherOf<EnsureRoot<AccountId>, CreateMemberships>', 'EitherOf<EnsureRoot<AccountId>, pallet_custom_origins::ReferendumKiller>'))
b('fees-burned', ['R13'], (MON, 'FungibleAdapter<Balances, ResolveTo<TreasuryAccount, Balances>>;', 'FungibleAdapter<Balances, ()>;'))
b('xcm-fees', ['R13'], (XCM, 'XcmAssetFeesReceiver: AccountId = Treasury::account_id();', 'XcmAssetFeesReceiver: AccountId = PolkadotXcm::check_account();'))
b('xcm-fees-native', ['R13'], (XCM, 'UsingComponents<WeightToFee, RelayLocation, AccountId, Balances, ResolveTo<TreasuryAccount, Balances>>', 'UsingComponents<WeightToFee, RelayLocation, AccountId, Balances, ()>'))
b('free-register', ['R13'], (CM, 'type RootCreatesCommunitiesForFree = EnsureRootWithSuccess<AccountId, NoPay>;', 'type RootCreatesCommunitiesForFree = frame_support::traits::MapSuccess<EnsureSigned<AccountId>, sp_runtime::traits::Replace<NoPay>>;'))
# R14
q('extra-alias', (LIB, '	SkipCheckIfFeeless<Runtime, frame_system::CheckNonce<Runtime>>,\n', '	FeelessNonce,\n'), (LIB, '$END', '\ntype FeelessNonce = SkipCheckIfFeeless<Runtime, frame_system::CheckNonce<Runtime>>;\n'))
q('extra-import', (LIB, '	frame_system::CheckEra<Runtime>,\n', '	CheckEra<Runtime>,\n'), (LIB, 'pub use frame_system::Call as SystemCall;\n', 'pub use frame_system::Call as SystemCall;\nuse frame_system::CheckEra;\n'))
b('extra-no-genesis', ['R14'], (LIB, '	frame_system::CheckGenesis<Runtime>,\n', ''))
b('extra-skip-weight', ['R14'], (LIB, '	frame_system::CheckWeight<Runtime>,\n', '	SkipCheckIfFeeless<Runtime, frame_system::CheckWeight<Runtime>>,\n'))
b('extra-order', ['R14'], (LIB, '	frame_system::CheckEra<Runtime>,\n	SkipCheckIfFeeless<Runtime, frame_system::CheckNonce<Runtime>>,\n', '	SkipCheckIfFeeless<Runtime, frame_system::CheckNonce<Runtime>>,\n	frame_system::CheckEra<Runtime>,\n'))
b('extra-no-payment', ['R14'], (LIB, 'SkipCheckIfFeeless<Runtime, ChargeTxToPassAccount<ChargeTransaction, Runtime, ()>>', 'SkipCheckIfFeeless<Runtime, frame_system::CheckNonZeroSender<Runtime>>'))
b('extra-spec-twice', ['R14'], (LIB, '	frame_system::CheckTxVersion<Runtime>,\n', '	frame_system::CheckSpecVersion<Runtime>,\n'))
# R15
q('weight-if', (CST, '''			time_poly
				.eval(weight.ref_time())
				.max(proof_poly.eval(weight.proof_size()))
''', '''			let (time, proof) = (time_poly.eval(weight.ref_time()), proof_poly.eval(weight.proof_size()));
			if time > proof {
				time
			} else {
				proof
			}
'''))
q('weight-core-max', (CST, '''			time_poly
				.eval(weight.ref_time())
				.max(proof_poly.eval(weight.proof_size()))
''', '''			core::cmp::max(proof_poly.eval(weight.proof_size()), time_poly.eval(weight.ref_time()))
'''))
q('weigh-len', (XW, '		weight.saturating_mul(self.inner().iter().count() as u64)\n', '		weight.saturating_mul(self.len() as u64)\n'))
q('weigh-helper', (XW, '''		assets.weigh_multi_assets(XcmFungibleWeight::<Runtime>::withdraw_asset())
''', '''		let each = XcmFungibleWeight::<Runtime>::withdraw_asset();
		each.saturating_mul(assets.inner().len() as u64)
'''))
q('deposit-if', (XW, '		hardcoded_weight.min(weight)\n', '		weight.min(hardcoded_weight)\n'))
b('weight-sum', ['R15'], (CST, '.max(proof_poly.eval(weight.proof_size()))', '.saturating_add(proof_poly.eval(weight.proof_size()))'))
b('weight-min', ['R15'], (CST, '.max(proof_poly.eval(weight.proof_size()))', '.min(proof_poly.eval(weight.proof_size()))'))
b('weight-time-twice', ['R15'], (CST, 'proof_poly.eval(weight.proof_size())', 'proof_poly.eval(weight.ref_time())'))
b('weight-poly', ['R15'], (CST, 'ProofSizeToFee::polynomial().into()', 'RefTimeToFee::polynomial().into()'))
b('weight-degree', ['R15'], (CST, '''			let q = 10_000;

			smallvec![WeightToFeeCoefficient {
				degree: 1,''', '''			let q = 10_000;

			smallvec![WeightToFeeCoefficient {
				degree: 0,'''))
b('xw-wrong', ['R15'], (XW, 'XcmGeneric::<Runtime>::descend_origin()', 'XcmGeneric::<Runtime>::clear_origin()'))
b('xw-once', ['R15'], (XW, 'assets.weigh_multi_assets(XcmFungibleWeight::<Runtime>::transfer_asset())', '{ let _ = assets; XcmFungibleWeight::<Runtime>::transfer_asset() }'))
b('xw-max', ['R15'], (XW, '''	fn universal_origin(_: &Junction) -> Weight {
		Weight::MAX
''', '''	fn universal_origin(_: &Junction) -> Weight {
		Weight::zero()
'''))
b('xw-deposit-max', ['R15'], (XW, 'hardcoded_weight.min(weight)', 'hardcoded_weight.max(weight)'))
b('xw-zip', ['R15'], (XW, 'weight.saturating_mul(self.inner().iter().count() as u64)', 'weight.saturating_add(weight.saturating_mul(self.inner().iter().skip(2).count() as u64))'))
b('call-weight', ['R15'], (CLIB, '''
				.saturating_add(di.weight);
			(weight, di.class)
		})]
		pub fn dispatch_as_account(''', ''';
			(weight, di.class)
		})]
		pub fn dispatch_as_account('''))
b('call-weight-2', ['R15'], (MLIB, '::create_memberships((*amount).into())', '::create_memberships(1)'))
b('call-weight-3', ['R15'], (PLIB, 'WeightInfo::resolve_dispute()', 'WeightInfo::cancel()'))
q('call-weight-order', (CLIB, '''			let weight = T::WeightInfo::dispatch_as_account()
				.saturating_add(T::DbWeight::get().reads_writes(1, 1))
				.saturating_add(di.weight);
			(weight, di.class)
		})]
		pub fn''', '''			(
				di.weight
					.saturating_add(T::WeightInfo::dispatch_as_account())
					.saturating_add(T::DbWeight::get().reads_writes(1, 1)),
				di.class,
			)
		})]
		pub fn'''))
# R16
q('spec-helper', (SL, '''	let mut properties = sc_chain_spec::Properties::new();
	properties.insert("tokenSymbol".into(), "KSM".into());
	properties.insert("tokenDecimals".into(), 12.into());
	properties.insert("ss58Format".into(), 2.into());
''', '''	let properties = token("KSM", 12, 2);
'''), (SL, '$END', '''
fn token(symbol: &str, decimals: u8, prefix: u16) -> sc_chain_spec::Properties {
	let mut properties = sc_chain_spec::Properties::new();
	properties.insert("ss58Format".into(), prefix.into());
	properties.insert("tokenSymbol".into(), symbol.into());
	properties.insert("tokenDecimals".into(), decimals.into());
	properties
}
'''))
q('spec-extensions-let', (SL, '''			Extensions {
				relay_chain: "kusama-local".into(),
				// You MUST set this to the correct network!
				para_id: KREIVO_PARA_ID,
			},
''', '''			extensions,
'''), (SL, '''	properties.insert("tokenDecimals".into(), 12.into());
''', '''	properties.insert("tokenDecimals".into(), 12.into());
	let extensions = Extensions {
		relay_chain: String::from("kusama-local"),
		para_id: KREIVO_PARA_ID,
	};
'''))
q('main-match', (MAIN, '''	if let Some(function) = supported_chains.get(&*cli.chain) {''', '''	let found = supported_chains.get(cli.chain.as_str());
	if let Some(function) = found {'''))
b('spec-decimals', ['R16'], (SL, '"tokenDecimals".into(), 12.into()', '"tokenDecimals".into(), 10.into()'))
b('spec-symbol', ['R16'], (SL, '"tokenSymbol".into(), "PAS".into()', '"tokenSymbol".into(), "KSM".into()'))
b('spec-para', ['R16'], (SL, '''			KREIVO_PARA_ID.into(),
			// initial''', '''			2000.into(),
			// initial'''))
b('spec-relay', ['R16'], (SL, 'relay_chain: "paseo-local".into()', 'relay_chain: "kusama-local".into()'))
b('spec-names', ['R16'], (MAIN, '("local", Box::new(local::chain_spec) as Box<_>),', '("local", Box::new(live::chain_spec) as Box<_>),'))
b('units', ['R16'], (CONST, 'pub const UNITS: Balance = 10_000_000_000;', 'pub const UNITS: Balance = 1_000_000_000_000;'))
b('live-file', ['R16'], (SV, 'include_bytes!("./kreivo_kusama_chainspec.json")', 'include_bytes!("./kreivo_paseador_chainspec.json")'))
# R16, address format
b('spec-format', ['R16'], (SL, '"ss58Format".into(), 2.into()', '"ss58Format".into(), 42.into()'))
b('prefix', ['R16'], (SYS, 'SS58Prefix: u16 = 2;', 'SS58Prefix: u16 = 42;'))
# R17
q('pass-order', (SYS, '''		EnsureRootWithSuccess<Self::AccountId, NeverPays>,
		EitherOf<
			// 	// Communities never pay
			CommunitiesDontDeposit,
''', '''		CommunitiesDontDeposit,
		EitherOf<
			EnsureRootWithSuccess<Self::AccountId, NeverPays>,
'''))
q('pass-session', (SYS, 'ConstU32<{ 15 * MINUTES }>', 'ConstU32<150>'))
b('pass-price', ['R17'], (SYS, '<Runtime as pallet_balances::Config>::ExistentialDeposit,\n				TreasuryAccount', 'ConstU128<0>,\n				TreasuryAccount'))
b('pass-session', ['R17'], (SYS, '15 * MINUTES', '15 * HOURS'))
b('pass-free', ['R17'], (SYS, '''			pallet_pass::EnsureSignedPays<
				Runtime,
				<Runtime as pallet_balances::Config>::ExistentialDeposit,
				TreasuryAccount,
			>,
''', '''			frame_system::EnsureSignedBy<CommunitiesDontDeposit, AccountId>,
'''))
# R18
q('track-helper', (KT, '''					decision_deposit: 10 * UNITS,
					prepare_period: 15 * MINUTES,
''', '''					decision_deposit: root_deposit(),
					prepare_period: HOURS / 4,
'''), (KT, '$END', '''
const fn root_deposit() -> Balance {
	UNITS * 10
}
'''))
q('track-curve', (KT, 'min_support: pallet_referenda::Curve::make_linear(28, 28, percent(50), percent(100)),', '''min_support: pallet_referenda::Curve::LinearDecreasing {
						length: Perbill::from_percent(100),
						floor: Perbill::from_percent(50),
						ceil: Perbill::from_percent(100),
					},'''))
q('rank-const', (KM, 'AtLeastRank<1>', 'AtLeastRank<{ FIRST }>'), (KM, '$END', '\nconst FIRST: Rank = 1;\n'))
b('rank-zero', ['R18'], (KM, 'AtLeastRank<1>', 'AtLeastRank<0>'))
b('rank-plus', ['R18'], (KM, '''	fn convert(_track: T) -> Rank {
		R
''', '''	fn convert(_track: T) -> Rank {
		R - 1
'''))
b('vote-unit', ['R18'], (KM, 'pallet_ranked_collective::Linear', 'pallet_ranked_collective::Unit'))
b('track-approval', ['R18'], (KT, '''						floor: Perbill::from_percent(90),
						ceil: Perbill::from_percent(100),
					},
					min_support: pallet_referenda::Curve::LinearDecreasing {
						length: Perbill::from_percent(100),
						floor: Perbill::from_percent(0),
						ceil: Perbill::from_percent(100),
					},
				},
			},
			Track {
				id: 2,''', '''						floor: Perbill::from_percent(50),
						ceil: Perbill::from_percent(100),
					},
					min_support: pallet_referenda::Curve::LinearDecreasing {
						length: Perbill::from_percent(100),
						floor: Perbill::from_percent(0),
						ceil: Perbill::from_percent(100),
					},
				},
			},
			Track {
				id: 2,'''))
b('track-half', ['R18'], (KT, 'make_linear(28, 28,', 'make_linear(14, 28,'))
b('track-deposit', ['R18'], (KT, '10 * UNITS', '10 * MILLICENTS'))
b('submit-members', ['R18'], (KG, 'EnsureSigned<AccountId>;\n	type CancelOrigin', 'EnsureRoot<AccountId>;\n	type CancelOrigin'))
b('slash-burn', ['R18'], (KG, 'type Slash = Treasury;', 'type Slash = ();'))
b('timeout', ['R18'], (KG, '2 * DAYS', '2 * MINUTES'))
# R19
q('api-helper', (APIS, '''			if !<Runtime as frame_system::Config>::BaseCallFilter::contains(&tx.function) {
				return InvalidTransaction::Call.into();
			};
			Executive::validate_transaction(source, tx, block_hash)
''', '''			let allowed = <Runtime as frame_system::Config>::BaseCallFilter::contains(&tx.function);
			if allowed {
				Executive::validate_transaction(source, tx, block_hash)
			} else {
				Err(InvalidTransaction::Call.into())
			}
'''))
q('api-balances', (APIS, '''			Ok([
				// collect pallet_balance
				{
					let balance = Balances::free_balance(account.clone());
					if balance > 0 {
						vec![convert_balance::<RelayLocation, Balance>(balance)?]
					} else {
						vec![]
					}
				},
''', '''			let balance = Balances::free_balance(&account);
			let native = if balance == 0 {
				vec![]
			} else {
				vec![convert_balance::<RelayLocation, Balance>(balance)?]
			};
			Ok([
				native,
'''), (APIS, '.filter(|(_, balance)| balance > &0)', '.filter(|(_, balance)| *balance != 0)'))
q('api-let', (APIS, 'TransactionPayment::query_info(uxt, len)', '{ let bytes = len; TransactionPayment::query_info(uxt, bytes) }'), (APIS, 'from_millis(SLOT_DURATION)', 'from_millis(6000)'))
b('api-filter', ['R19'], (APIS, '''			if !<Runtime as frame_system::Config>::BaseCallFilter::contains(&tx.function) {
				return InvalidTransaction::Call.into();
			};
''', ''))
b('api-filter-not', ['R19'], (APIS, 'if !<Runtime', 'if <Runtime'))
b('api-slot', ['R19'], (APIS, 'from_millis(SLOT_DURATION)', 'from_millis(SLOT_DURATION * 2)'))
b('api-swap', ['R19'], (APIS, 'TransactionPayment::query_fee_details(uxt, len)', 'TransactionPayment::query_fee_details(uxt, 0)'))
b('api-length', ['R19'], (APIS, '''			TransactionPayment::length_to_fee(length)
		}
	}

	impl pallet_transaction_payment_rpc_runtime_api::TransactionPaymentCallApi''', '''			TransactionPayment::length_to_fee(length / 2)
		}
	}

	impl pallet_transaction_payment_rpc_runtime_api::TransactionPaymentCallApi'''))
b('api-zero', ['R19'], (APIS, 'balance > &0', 'balance >= &0'))
b('api-native', ['R19'], (APIS, 'if balance > 0 {', 'if balance > 1 {'))
b('api-hook', ['R19'], (APIS, 'ConsensusHook::can_build_upon(included_hash, slot)', '{ let _ = (included_hash, slot); true }'))
# R20
q('deposit-one', (CST, 'constants::currency::deposit(items, bytes) / 100', 'items as Balance * 20 * CENTS + (bytes as Balance) * MILLICENTS'))
b('deposit-thousandth', ['R20'], (CST, 'constants::currency::deposit(items, bytes) / 100', 'constants::currency::deposit(items, bytes) / 1000'))
b('deposit-swap', ['R20'], (CST, 'constants::currency::deposit(items, bytes) / 100', 'constants::currency::deposit(bytes, items) / 100'))
b('deposit-byte', ['R20'], (CONST, '(bytes as Balance) * 100 * MILLICENTS', '(bytes as Balance) * MILLICENTS'))
b('multisig', ['R20'], (LIB, 'DepositFactor: Balance = deposit(0, 32);', 'DepositFactor: Balance = deposit(0, 0);'))
b('preimage', ['R20'], (LIB, 'LinearStoragePrice<PreimageBaseDeposit, PreimageByteDeposit, Balance>', 'LinearStoragePrice<PreimageByteDeposit, PreimageBaseDeposit, Balance>'))
b('cents', ['R20'], (CONST, 'pub const CENTS: Balance = UNITS / 100;', 'pub const CENTS: Balance = UNITS / 10;'))
b('existential', ['R20'], (CST, 'constants::currency::EXISTENTIAL_DEPOSIT / 10;', 'constants::currency::EXISTENTIAL_DEPOSIT / 1000;'))
b('item-byte', ['R20'], (CON, 'DepositPerByte: Balance = deposit(0, 1)', 'DepositPerByte: Balance = deposit(1, 0)'))
# R21
q('hook-literals', (LIB, '''	{ async_backing_params::RELAY_CHAIN_SLOT_DURATION_MILLIS },
	{ async_backing_params::BLOCK_PROCESSING_VELOCITY },
	{ async_backing_params::UNINCLUDED_SEGMENT_CAPACITY },
''', '''	6000,
	1,
	{ async_backing_params::UNINCLUDED_SEGMENT_CAPACITY },
'''))
q('period-days', (LIB, 'Period: u32 = 6 * HOURS', 'Period: u32 = DAYS / 4'))
b('velocity', ['R21'], (LIB, 'BLOCK_PROCESSING_VELOCITY: u32 = 1', 'BLOCK_PROCESSING_VELOCITY: u32 = 2'))
b('capacity', ['R21'], (LIB, 'UNINCLUDED_SEGMENT_CAPACITY: u32 = 3', 'UNINCLUDED_SEGMENT_CAPACITY: u32 = 1'))
b('relay-slot', ['R21'], (LIB, 'RELAY_CHAIN_SLOT_DURATION_MILLIS: u32 = 6_000', 'RELAY_CHAIN_SLOT_DURATION_MILLIS: u32 = 12_000'))
b('kick', ['R21'], (LIB, 'type KickThreshold = Period;', 'type KickThreshold = Offset;'))
b('rotation', ['R21'], (LIB, 'type NextSessionRotation = pallet_session::PeriodicSessions<Period, Offset>;', 'type NextSessionRotation = pallet_session::PeriodicSessions<Period, Period>;'))
b('authored', ['R21'], (LIB, 'type EventHandler = (CollatorSelection,);', 'type EventHandler = ();'))
b('eligible', ['R21'], (LIB, 'MinEligibleCollators: u32 = 1;', 'MinEligibleCollators: u32 = 0;'))
# R22
q('room-sub', (SYS, '''			weights.reserved = Some(
				MAXIMUM_BLOCK_WEIGHT - NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT
			);
''', '''			let normal = NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT;
			weights.reserved = Some(MAXIMUM_BLOCK_WEIGHT.saturating_sub(normal));
'''))
q('room-order', (SYS, '''		.for_class(DispatchClass::Normal, |weights| {
			weights.max_total = Some(NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT);
		})
''', ''), (SYS, '''		.avg_block_initialization(AVERAGE_ON_INITIALIZE_RATIO)
''', '''		.for_class(DispatchClass::Normal, |limits| {
			limits.max_total = Some(Perbill::from_percent(75) * MAXIMUM_BLOCK_WEIGHT);
		})
		.avg_block_initialization(AVERAGE_ON_INITIALIZE_RATIO)
'''))
b('room-normal', ['R22'], (SYS, 'weights.max_total = Some(NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT);', 'weights.max_total = Some(MAXIMUM_BLOCK_WEIGHT);'))
b('room-reserved', ['R22'], (SYS, 'MAXIMUM_BLOCK_WEIGHT - NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT\n', 'NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT\n'))
b('room-class', ['R22'], (SYS, '.for_class(DispatchClass::Operational,', '.for_class(DispatchClass::all(),'))
b('room-queue', ['R22'], (LIB, 'Perbill::from_percent(35)', 'Perbill::from_percent(85)'))
b('room-dmp', ['R22'], (SYS, 'ReservedDmpWeight: Weight = MAXIMUM_BLOCK_WEIGHT.saturating_div(4)', 'ReservedDmpWeight: Weight = MAXIMUM_BLOCK_WEIGHT'))
b('room-length', ['R22'], (SYS, '5 * 1024 * 1024', '50 * 1024 * 1024'))
# R23
q('genesis-loop', (SL, '''			"balances": endowed_accounts.iter().cloned().map(|k| (k, 1u64 << 60)).collect::<Vec<_>>()
''', '''			"balances": endowment(endowed_accounts)
'''), (SL, '$END', '''
fn endowment(accounts: Vec<AccountId>) -> Vec<(AccountId, u64)> {
	let mut out = Vec::new();
	for account in accounts {
		out.push((account, 1u64 << 60));
	}
	out
}
'''))
q('genesis-clone', (SL, '''				.map(|(acc, aura)| {
				(
					acc.clone(),        // account id
					acc,                // validator id
					session_keys(aura), // session keys
				)
				})
''', '''				.map(|(who, key)| (who.clone(), who, SessionKeys { aura: key }))
'''))
b('genesis-bond', ['R23'], (SL, 'EXISTENTIAL_DEPOSIT * 16', 'EXISTENTIAL_DEPOSIT'))
b('genesis-key', ['R23'], (SL, '"session".into()', '"sessions".into()'))
b('genesis-version', ['R23'], (SL, 'Some(SAFE_XCM_VERSION)', 'None::<u32>'))
b('genesis-shift', ['R23'], (SL, '1u64 << 60', '1u64 << 6'))
b('genesis-skip', ['R23'], (SL, 'invulnerables.iter().cloned().map(|(acc, _)| acc)', 'invulnerables.iter().skip(1).cloned().map(|(acc, _)| acc)'))
b('genesis-keys', ['R23'], (SL, '''				.into_iter()
				.map(|(acc, aura)| {''', '''				.into_iter()
				.take(1)
				.map(|(acc, aura)| {'''))
b('genesis-seed', ['R23'], (SL, """					get_collator_keys_from_seed("Bob"),
				),
			],
			vec![
				get_account_id_from_seed::<sr25519::Public>("Alice"),
				get_account_id_from_seed::<sr25519::Public>("Bob"),
				get_account_id_from_seed::<sr25519::Public>("Charlie"),
				get_account_id_from_seed::<sr25519::Public>("Dave"),
				get_account_id_from_seed::<sr25519::Public>("Eve"),
				get_account_id_from_seed::<sr25519::Public>("Ferdie"),
				get_account_id_from_seed::<sr25519::Public>("Alice//stash"),""", """					get_collator_keys_from_seed("Alice"),
				),
			],
			vec![
				get_account_id_from_seed::<sr25519::Public>("Alice"),
				get_account_id_from_seed::<sr25519::Public>("Bob"),
				get_account_id_from_seed::<sr25519::Public>("Charlie"),
				get_account_id_from_seed::<sr25519::Public>("Dave"),
				get_account_id_from_seed::<sr25519::Public>("Eve"),
				get_account_id_from_seed::<sr25519::Public>("Ferdie"),
				get_account_id_from_seed::<sr25519::Public>("Alice//stash"),"""))

# R24
CTY, PTY, CORI = 'pallets/communities/src/types.rs', 'pallets/payments/src/types.rs', 'pallets/communities/src/origin.rs'
F = ['R24']
b('form-hasher', F, (CLIB, 'type Info<T> = StorageMap<_, Blake2_128Concat,', 'type Info<T> = StorageMap<_, Twox64Concat,'))
b('form-entry', F, (CLIB, '	pub(super) type Info<T> = StorageMap', '	#[pallet::storage_prefix = "Communities"]\n	pub(super) type Info<T> = StorageMap'))
b('form-keys', F, (CLIB, 'Blake2_128Concat, AccountIdOf<T>, Blake2_128Concat, PollIndexOf<T>, VoteOf<T>>', 'Blake2_128Concat, PollIndexOf<T>, Blake2_128Concat, AccountIdOf<T>, VoteOf<T>>'))
b('form-votes', F, (CTY, '''	AssetBalance(bool, AssetId, AssetBalance),
	NativeBalance(bool, NativeBalance),
	Standard(bool),
''', '''	Standard(bool),
	AssetBalance(bool, AssetId, AssetBalance),
	NativeBalance(bool, NativeBalance),
'''))
b('form-method', F, (CTY, '	Membership,\n	NativeToken,\n', '	NativeToken,\n	Membership,\n'))
b('form-tally', F, (CTY, '	pub(crate) ayes: VoteWeight,\n	pub(crate) nays: VoteWeight,\n', '	pub(crate) nays: VoteWeight,\n	pub(crate) ayes: VoteWeight,\n'))
b('form-tally-wide', F, (CTY, 'pub type VoteWeight = u32;', 'pub type VoteWeight = u64;'))
b('form-state', F, (CTY, '	#[default]\n	Active,\n', '	#[default]\n	Pending,\n	Active,\n'))
b('form-compact', F, (CLIB, 'pub fn unlock(origin: OriginFor<T>, #[pallet::compact] poll_index:', 'pub fn unlock(origin: OriginFor<T>, poll_index:'))
b('form-args', F, (CLIB, '''			membership_id: MembershipIdOf<T>,
			#[pallet::compact] poll_index: PollIndexOf<T>,
		) -> DispatchResult {''', '''			#[pallet::compact] poll_index: PollIndexOf<T>,
			membership_id: MembershipIdOf<T>,
		) -> DispatchResult {'''))
b('form-account', F, (PAY, '*b"payments"', '*b"payment0"'))
b('form-account2', F, (CM, '*b"kv/cmtys"', '*b"kv/comms"'))
b('form-name', F, (LIB, 'pub type Treasury = pallet_treasury', 'pub type CommunityTreasury = pallet_treasury'))
b('form-reason', F, (PLIB, '#[codec(index = 0)]\n', '#[codec(index = 1)]\n'))
q('form-alias', (CTY, 'pub type VoteWeight = u32;', 'pub type Weightage = u32;\npub type VoteWeight = Weightage;'))
q('form-variant', (CTY, '	Standard(bool),\n}', '	/// one each\n	#[codec(index = 2)]\n	Standard(bool),\n}'), props=F)
q('form-field', (CTY, '	/// The current state of the community.\n	pub state: CommunityState,', '	pub(crate) state: CommunityState,'), props=F)
q('form-storage-where', (CLIB, 'pub(super) type Info<T> = StorageMap<_, Blake2_128Concat, CommunityIdOf<T>, CommunityInfo>;', 'pub(super) type Info<T: Config> = StorageMap<_, Blake2_128Concat, T::CommunityId, CommunityInfo, OptionQuery>;'), props=F)
b('form-spec', F, (LIB, 'spec_version: 114,', 'spec_version: 113,'))
b('form-tx', F, (LIB, 'transaction_version: 9,', 'transaction_version: 8,'))
b('form-trie', F, (LIB, 'state_version: 1,', 'state_version: 0,'))
b('form-spec-name', F, (LIB, 'spec_name: create_runtime_str!("kreivo-parachain")', 'spec_name: create_runtime_str!("kreivo")'))
q('form-spec-up', (LIB, 'spec_version: 114,', 'spec_version: SPEC_VERSION,'), (LIB, '#[sp_version::runtime_version]', 'const SPEC_VERSION: u32 = 100 + 15;\n\n#[sp_version::runtime_version]'), (LIB, 'transaction_version: 9,', 'transaction_version: 10,'))
# R03, R19: nothing is missing
b('superset-less', ['R03'], (IMPL, '(ProxyType::Assets, ProxyType::AssetManager) => true,', '(ProxyType::Assets, ProxyType::AssetManager) => false,'))
b('proxy-no-mint', ['R03'], (IMPL, '''				RuntimeCall::Assets(KreivoAssetsCall::mint { .. })
					| RuntimeCall::Assets(KreivoAssetsCall::burn { .. })''', '''				RuntimeCall::Assets(KreivoAssetsCall::burn { .. })'''))
b('proxy-any-less', ['R03'], (IMPL, 'ProxyType::Any => true,', 'ProxyType::Any => !matches!(c, RuntimeCall::Vesting { .. }),'))
b('api-dust', ['R19'], (APIS, 'balance > &0', 'balance > &1'))
# R25
L = ['R25']
b('room-locks', L, (MON, 'type MaxLocks = ConstU32<50>', 'type MaxLocks = ConstU32<20>'))
b('room-freezes', L, (MON, 'type MaxFreezes = ConstU32<256>', 'type MaxFreezes = ConstU32<255>'))
b('room-vesting', L, (MON, 'MAX_VESTING_SCHEDULES: u32 = 28', 'MAX_VESTING_SCHEDULES: u32 = 8'))
b('room-remark', L, (PAY, 'MaxRemarkLength: u8 = 50', 'MaxRemarkLength: u8 = 32'))
b('room-fees', L, (PAY, 'type MaxFees = ConstU32<50>', 'type MaxFees = ConstU32<1>'))
b('room-page', L, (LIB, '{ 103 * 1024 }', '{ 64 * 1024 }'))
b('room-queue', L, (CG, 'type MaxQueued = ConstU32<100>', 'type MaxQueued = ConstU32<10>'))
b('room-proxies', L, (LIB, 'MaxProxies: u16 = 32', 'MaxProxies: u16 = 16'))
b('room-attributes', L, (CMM, 'type MaxAttributesPerCall = ConstU32<10>', 'type MaxAttributesPerCall = ConstU32<5>'))
b('room-code', L, (CON, '{ 192 * 1024 }', '{ 128 * 1024 }'))
b('room-holding', L, (XCM, 'MaxAssetsIntoHolding: u32 = 64', 'MaxAssetsIntoHolding: u32 = 8'))
q('room-more', (MON, 'type MaxLocks = ConstU32<50>', 'type MaxLocks = ConstU32<64>'), (MON, 'MAX_VESTING_SCHEDULES: u32 = 28', 'MAX_VESTING_SCHEDULES: u32 = 4 * 7'),
  (LIB, 'MaxProxies: u16 = 32', 'MaxProxies: u16 = 1 << 5'), (PAY, 'type MaxRemarkLength = MaxRemarkLength;', 'type MaxRemarkLength = frame_support::traits::ConstU8<50>;'))
# R26
T = ['R26']
b('treasury-burn', T, (LIB, '	type Burn = ();\n', '	type Burn = Burn;\n'), (LIB, 'pub const SpendPeriod', 'pub const Burn: Permill = Permill::from_percent(1);\n	pub const SpendPeriod'))
b('treasury-period', T, (LIB, 'SpendPeriod: BlockNumber = 6 * DAYS', 'SpendPeriod: BlockNumber = 6 * HOURS'))
b('treasury-payout', T, (LIB, 'PayoutSpendPeriod: BlockNumber = 30 * DAYS', 'PayoutSpendPeriod: BlockNumber = 30'))
b('treasury-payer', T, (LIB, 'PayFromAccount<Balances, TreasuryAccount>', 'PayFromAccount<Balances, CheckingPot>'), (LIB, 'pub TreasuryAccount:', 'pub CheckingPot: AccountId = PolkadotXcm::check_account();\n	pub TreasuryAccount:'))
b('vest-transfer', T, (MON, 'WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE)', 'WithdrawReasons::except(WithdrawReasons::RESERVE)'))
b('vest-all', T, (MON, 'WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE)', 'WithdrawReasons::all()'))
b('vest-least', T, (MON, 'MinVestedTransfer: Balance = 100 * CENTS', 'MinVestedTransfer: Balance = 100 * MILLICENTS'))
b('no-freezer', T, (MON, 'type Freezer = AssetsFreezer', 'type Freezer = ()'))
q('treasury-inline', (LIB, 'type SpendPeriod = SpendPeriod;', 'type SpendPeriod = ConstU32<{ 144 * HOURS }>;'), (LIB, 'type Paymaster = PayFromAccount<Balances, TreasuryAccount>;', 'type Paymaster = TreasuryPays;'),
  (LIB, '$END', '\ntype TreasuryPays = PayFromAccount<Balances, TreasuryAccount>;\n'))
q('vest-swap', (MON, 'WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE', 'WithdrawReasons::RESERVE | WithdrawReasons::TRANSFER'), (MON, 'MinVestedTransfer: Balance = 100 * CENTS', 'MinVestedTransfer: Balance = 1_000 * EXISTENTIAL_DEPOSIT'))
# R27
X = ['R27']
b('booked-native', X, (XCM, 'IsConcrete<RelayLocation>,\n	// Convert', 'IsConcrete<AssetHubLocation>,\n	// Convert'))
b('booked-twice', X, (XCM, 'pub type AssetTransactors = (FungibleTransactor, FungiblesTransactor);', 'pub type AssetTransactors = (FungibleTransactor, FungiblesTransactor, FungibleTransactor);'))
b('booked-not', X, (XCM, 'pub type AssetTransactors = (FungibleTransactor, FungiblesTransactor);', 'pub type AssetTransactors = (FungibleTransactor,);'))
b('booked-owner', X, (XCM, '''	IsConcrete<RelayLocation>,
	// Convert an XCM Location into a local account id:
	LocationToAccountId,''', '''	IsConcrete<RelayLocation>,
	// Convert an XCM Location into a local account id:
	(ParentIsPreset<AccountId>, AccountId32Aliases<RelayNetwork, AccountId>),'''))
b('sibling-account', X, (XCM, '	SiblingParachainConvertsVia<Sibling, AccountId>,\n	// Plurality', '	// Plurality'))
b('trap-lost', X, (XCM, 'type AssetTrap = PolkadotXcm', 'type AssetTrap = ()'))
b('not-undone', X, (XCM, 'type TransactionalProcessor = FrameTransactionalProcessor', 'type TransactionalProcessor = ()'))
q('booked-order', (XCM, 'pub type AssetTransactors = (FungibleTransactor, FungiblesTransactor);', 'pub type AssetTransactors = (FungiblesTransactor, Native<LocationToAccountId>);\npub type Native<A> = FungibleAdapter<Balances, IsConcrete<RelayLocation>, A, AccountId, CheckAccount>;'),
  (XCM, 'type AssetTrap = PolkadotXcm', 'type AssetTrap = crate::PolkadotXcm'))
# R28
M = ['R28']
b('route-up', M, (XCM, '	cumulus_primitives_utility::ParentAsUmp<ParachainSystem, (), ()>,\n', ''))
b('route-side', M, (XCM, "	// ..and XCMP to communicate with the sibling chains.\n	XcmpQueue,\n", ''))
b('queue-down', M, (SYS, 'frame_support::traits::EnqueueWithOrigin<MessageQueue, RelayOrigin>', '()'))
b('queue-origin', M, (SYS, 'RelayOrigin: AggregateMessageOrigin = AggregateMessageOrigin::Parent', 'RelayOrigin: AggregateMessageOrigin = AggregateMessageOrigin::Here'))
b('queue-xcmp', M, (SYS, 'type XcmpMessageHandler = XcmpQueue', 'type XcmpMessageHandler = ()'))
b('queue-paused', M, (LIB, 'type QueuePausedQuery = NarrowOriginToSibling<XcmpQueue>', 'type QueuePausedQuery = ()'))
b('set-code', M, (SYS, 'cumulus_pallet_parachain_system::ParachainSetCode<Self>', '()'))
b('relay-any', M, (SYS, 'RelayNumberMonotonicallyIncreases;', 'AnyRelayNumber;'))
b('call-filter', M, (XCM, 'type SafeCallFilter = Everything', 'type SafeCallFilter = Nothing'))
b('some-pallets', M, (LIB, 'frame_system::ChainContext<Runtime>, Runtime, AllPalletsWithSystem>', 'frame_system::ChainContext<Runtime>, Runtime, AllPalletsWithoutSystem>'))
q('route-order', (XCM, '''	cumulus_primitives_utility::ParentAsUmp<ParachainSystem, (), ()>,
''', '''	Up<ParachainSystem>,
'''), (XCM, '$END', '\ntype Up<P> = cumulus_primitives_utility::ParentAsUmp<P, (), ()>;\n'), (LIB, 'xcm_executor::XcmExecutor<xcm_config::XcmConfig>,\n		RuntimeCall,\n	>;', 'Runs,\n		RuntimeCall,\n	>;'),
  (LIB, '$END', '\ntype Runs = xcm_executor::XcmExecutor<xcm_config::XcmConfig>;\n'))
# R29
O = ['R29']
b('open-pay', O, (PAY, 'type SenderOrigin = EitherOf<AsSignedByCommunity<Self>, EnsureSigned<AccountId>>', 'type SenderOrigin = AsSignedByCommunity<Self>'))
b('open-community', O, (PAY, 'type SenderOrigin = EitherOf<AsSignedByCommunity<Self>, EnsureSigned<AccountId>>', 'type SenderOrigin = EnsureSigned<AccountId>'))
b('open-root', O, (PAY, 'type BeneficiaryOrigin = EnsureSigned<AccountId>', 'type BeneficiaryOrigin = EitherOf<frame_system::EnsureRootWithSuccess<AccountId, TreasuryAccount>, EnsureSigned<AccountId>>'))
b('open-paid', O, (XCM, 'AllowTopLevelPaidExecutionFrom<Everything>', 'AllowTopLevelPaidExecutionFrom<Nothing>'))
b('open-transfers', O, (XCM, 'type XcmReserveTransferFilter = Everything', 'type XcmReserveTransferFilter = Nothing'))
b('open-calls', O, (SYS, '	type Lookup = CommunityLookup;\n', '	type Lookup = CommunityLookup;\n	type BaseCallFilter = frame_support::traits::InsideBoth<frame_support::traits::Everything, NoVesting>;\n'),
  (SYS, '$END', '\npub struct NoVesting;\nimpl frame_support::traits::Contains<RuntimeCall> for NoVesting {\n	fn contains(c: &RuntimeCall) -> bool {\n		!matches!(c, RuntimeCall::Vesting(..))\n	}\n}\n'))
q('open-swap', (PAY, 'type SenderOrigin = EitherOf<AsSignedByCommunity<Self>, EnsureSigned<AccountId>>', 'type SenderOrigin = EitherOf<EnsureSigned<Self::AccountId>, AsSignedByCommunity<Runtime>>'),
  (SYS, '	type Lookup = CommunityLookup;\n', '	type Lookup = CommunityLookup;\n	type BaseCallFilter = frame_support::traits::Everything;\n'))
b('one-per-slot', ['R21'], (LIB, 'type AllowMultipleBlocksPerSlot = ConstBool<true>', 'type AllowMultipleBlocksPerSlot = ConstBool<false>'))

# larger rewrites
def body(path, sig, new):
    """the edit that gives the block following a piece of text another content"""
    def f(s):
        assert s.count(sig) == 1, (sig, s.count(sig))
        i = s.index('{', s.index(sig) + len(sig))
        d, j = 0, i
        while True:
            d += {'{': 1, '}': -1}.get(s[j], 0)
            if d == 0:
                break
            j += 1
        return s[:i] + '{' + new + '}' + s[j + 1:]
    return (path, f, '')


FEES = '		_remark: Option<&[u8]>,\n	) -> Fees<Runtime> '
FILTER = 'fn filter(&self, c: &RuntimeCall) -> bool '
SUPER = 'fn is_superset(&self, o: &Self) -> bool '
PRIV = 'fn cmp_privilege(left: &OriginCaller, right: &OriginCaller) -> Option<Ordering> '
NEXT = 'fn next(_: &AccountId, beneficiary: &AccountId) -> Option<Self> '
q('x-fees-file', body(PAY, FEES, '''
		let min = <Assets as fungibles::Inspect<AccountId>>::minimum_balance(*asset);
		Fees {
			sender_pays: crate::fees::charge(sender, SENDER_FEE, min, *amount).try_into().unwrap(),
			beneficiary_pays: crate::fees::charge(beneficiary, BENEFICIARY_FEE, min, *amount).try_into().unwrap(),
		}
	'''), (LIB, 'pub mod xcm_config;', 'mod fees;\npub mod xcm_config;'), (R + 'fees.rs', '$NEW', '''use super::*;
use sp_runtime::traits::AccountIdConversion;

fn is_community(who: &AccountId) -> bool {
	match frame_support::PalletId::try_from_sub_account::<CommunityId>(who) {
		Some((pallet, _)) => pallet == crate::communities::CommunityPalletId::get(),
		None => false,
	}
}

/// What is charged to an account that is not a community's
pub(crate) fn charge(who: &AccountId, share: Percent, min: Balance, amount: Balance) -> Vec<(AccountId, Balance, bool)> {
	if is_community(who) {
		return Vec::new();
	}
	let fee = share.mul_floor(amount);
	vec![(TreasuryAccount::get(), if fee < min { min } else { fee }, true)]
}
'''))
q('x-fees-map', body(PAY, FEES, '''
		let min = <Assets as fungibles::Inspect<AccountId>>::minimum_balance(*asset);
		let community = crate::communities::CommunityPalletId::get();
		let [sender_pays, beneficiary_pays] = [(sender, SENDER_FEE), (beneficiary, BENEFICIARY_FEE)].map(|(who, fee)| {
			let exempt = PalletId::try_from_sub_account::<CommunityId>(who).is_some_and(|(id, _)| id == community);
			let mut pays = BoundedVec::default();
			if !exempt {
				pays.try_push((TreasuryAccount::get(), min.max(fee.mul_floor(*amount)), MANDATORY_FEE)).expect("room for one");
			}
			pays
		});
		Fees { sender_pays, beneficiary_pays }
	'''))
q('x-fees-opt', body(PAY, FEES, '''
		let min = <Assets as fungibles::Inspect<AccountId>>::minimum_balance(*asset);
		let fee_of = |who: &AccountId, fee: Percent| match PalletId::try_from_sub_account::<CommunityId>(who) {
			Some((id, _)) if id == crate::communities::CommunityPalletId::get() => None,
			_ => Some((TreasuryAccount::get(), core::cmp::max(min, fee.mul_floor(*amount)), MANDATORY_FEE)),
		};
		Fees {
			sender_pays: fee_of(sender, SENDER_FEE).into_iter().collect::<Vec<_>>().try_into().unwrap(),
			beneficiary_pays: fee_of(beneficiary, BENEFICIARY_FEE).into_iter().collect::<Vec<_>>().try_into().unwrap(),
		}
	'''))
q('x-next-match', body(PAY, NEXT, '''
		match System::extrinsic_index() {
			Some(idx) => {
				let extra = beneficiary.encode();
				let parts = (System::block_number(), idx, &extra[..]);
				Some(Self::from(parts))
			}
			None => None,
		}
	'''))
q('x-next-map', body(PAY, NEXT, '''
		System::extrinsic_index().map(|idx| beneficiary.using_encoded(|extra| (System::block_number(), idx, extra).into()))
	'''))
q('x-filter-split', body(IMPL, FILTER, '''
		if *self == ProxyType::Any {
			return true;
		}
		if let ProxyType::NonTransfer = self {
			return !moves_funds(c);
		}
		wraps(c) || match (self, c) {
			(ProxyType::CancelProxy, RuntimeCall::Proxy(call)) => matches!(call, pallet_proxy::Call::reject_announcement { .. }),
			(ProxyType::Assets, RuntimeCall::Assets(_)) => true,
			(ProxyType::AssetOwner, RuntimeCall::Assets(call)) => of_owner(call),
			(ProxyType::AssetManager, RuntimeCall::Assets(call)) => of_manager(call),
			(ProxyType::Collator, RuntimeCall::CollatorSelection(_)) => true,
			_ => false,
		}
	'''), (IMPL, 'impl InstanceFilter<RuntimeCall> for ProxyType {', '''fn moves_funds(c: &RuntimeCall) -> bool {
	matches!(c, RuntimeCall::Balances(_) | RuntimeCall::Assets(_))
}

fn wraps(c: &RuntimeCall) -> bool {
	matches!(c, RuntimeCall::Utility(_) | RuntimeCall::Multisig(_))
}

fn of_owner(call: &KreivoAssetsCall) -> bool {
	match call {
		KreivoAssetsCall::create { .. } | KreivoAssetsCall::start_destroy { .. } | KreivoAssetsCall::finish_destroy { .. } => true,
		KreivoAssetsCall::destroy_accounts { .. } | KreivoAssetsCall::destroy_approvals { .. } => true,
		KreivoAssetsCall::transfer_ownership { .. } | KreivoAssetsCall::set_team { .. } => true,
		KreivoAssetsCall::set_metadata { .. } | KreivoAssetsCall::clear_metadata { .. } => true,
		_ => false,
	}
}

fn of_manager(call: &KreivoAssetsCall) -> bool {
	use pallet_assets::Call::*;
	matches!(call, mint { .. } | burn { .. } | freeze { .. } | thaw { .. } | freeze_asset { .. } | thaw_asset { .. })
}

impl InstanceFilter<RuntimeCall> for ProxyType {'''))
q('x-superset', body(IMPL, SUPER, '''
		use ProxyType::*;
		self == o
			|| match self {
				Any => true,
				Assets => matches!(o, AssetOwner | AssetManager),
				NonTransfer => *o == Collator,
				CancelProxy | AssetOwner | AssetManager | Collator => false,
			}
	'''))
q('x-priv', body(IMPL, PRIV, '''
		let root = OriginCaller::system(frame_system::RawOrigin::Root);
		if left == right {
			Some(Ordering::Equal)
		} else if *left == root {
			Some(Ordering::Greater)
		} else {
			None
		}
	'''))
q('x-priv-then', body(IMPL, PRIV, '''
		(left == right)
			.then_some(Ordering::Equal)
			.or_else(|| matches!(left, OriginCaller::system(frame_system::RawOrigin::Root)).then_some(Ordering::Greater))
	'''))
q('x-black', body(IMPL, 'fn contains(call: &RuntimeCall) -> bool ', '''
		match call {
			RuntimeCall::Balances(..) | RuntimeCall::Treasury(..) => false,
			RuntimeCall::Utility(..) | RuntimeCall::Assets(..) | RuntimeCall::Proxy(..) => false,
			_ => true,
		}
	'''))
q('x-proxy-file', (IMPL, lambda s: s[:s.index('impl InstanceFilter<RuntimeCall> for ProxyType {')] + s[s.index('/// Used to compare the privilege of an origin'):], ''),
  (LIB, 'pub mod xcm_config;', 'mod proxies;\npub mod xcm_config;'), (R + 'proxies.rs', '$NEW', '''use crate::{impls::ProxyType, *};
use frame_support::traits::InstanceFilter;

''' + (lambda s: s[s.index('impl InstanceFilter<RuntimeCall> for ProxyType {'):s.index('/// Used to compare the privilege of an origin')])(open('/repo/runtime/kreivo/src/impls.rs').read())))
q('x-pay-config-file', (PAY, lambda s: s[:s.index('impl pallet_payments::Config for Runtime {')], ''), (LIB, 'pub mod xcm_config;', 'mod payments_config;\npub mod xcm_config;'),
  (R + 'payments_config.rs', '$NEW', '''use super::{payments::*, *};
use frame_support::traits::EitherOf;
use frame_system::EnsureSigned;
use pallet_communities::origin::AsSignedByCommunity;

''' + (lambda s: s[s.index('impl pallet_payments::Config for Runtime {'):])(open('/repo/runtime/kreivo/src/payments.rs').read())))
b('x-b-fees-file', ['R09'], body(PAY, FEES, '''
		let min = <Assets as fungibles::Inspect<AccountId>>::minimum_balance(*asset);
		Fees {
			sender_pays: crate::fees::charge(sender, SENDER_FEE, min, *amount).try_into().unwrap(),
			beneficiary_pays: crate::fees::charge(beneficiary, BENEFICIARY_FEE, min, *amount).try_into().unwrap(),
		}
	'''), (LIB, 'pub mod xcm_config;', 'mod fees;\npub mod xcm_config;'), (R + 'fees.rs', '$NEW', '''use super::*;
use sp_runtime::traits::AccountIdConversion;

pub(crate) fn charge(who: &AccountId, share: Percent, min: Balance, amount: Balance) -> Vec<(AccountId, Balance, bool)> {
	if frame_support::PalletId::try_from_sub_account::<CommunityId>(who).is_some() {
		return Vec::new();
	}
	let fee = share.mul_floor(amount);
	vec![(TreasuryAccount::get(), if fee < min { min } else { fee }, true)]
}
'''))
b('x-b-filter-split', ['R03'], body(IMPL, FILTER, '''
		if *self == ProxyType::Any {
			return true;
		}
		if let ProxyType::NonTransfer = self {
			return !matches!(c, RuntimeCall::Balances(_) | RuntimeCall::Assets(_));
		}
		matches!(c, RuntimeCall::Utility(_) | RuntimeCall::Multisig(_)) || match (self, c) {
			(ProxyType::CancelProxy, RuntimeCall::Proxy(call)) => matches!(call, pallet_proxy::Call::reject_announcement { .. }),
			(ProxyType::Assets | ProxyType::AssetOwner, RuntimeCall::Assets(_)) => true,
			(ProxyType::AssetManager, RuntimeCall::Assets(call)) => matches!(call, KreivoAssetsCall::mint { .. } | KreivoAssetsCall::burn { .. } | KreivoAssetsCall::freeze { .. } | KreivoAssetsCall::thaw { .. } | KreivoAssetsCall::freeze_asset { .. } | KreivoAssetsCall::thaw_asset { .. }),
			(ProxyType::Collator, RuntimeCall::CollatorSelection(_)) => true,
			_ => false,
		}
	'''))
b('x-b-fees-near', ['R09'], (PAY, 'fee.mul_floor(*amount)', 'fee * *amount'))
