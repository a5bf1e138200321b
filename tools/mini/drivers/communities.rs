//! A test chain around the communities pallet.
pub use mini::{
	ledger::{self, free, frozen, fund, held},
	memberships::{GenericRank, Inspect as _, Manager as _, Rank as _},
	sprt::{acc, AccountId32, DispatchError, Perbill, Permill},
	support::{
		dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo},
		traits::*,
		PalletId,
	},
	system::{self, RawOrigin},
	world,
};
use mini::sprt::{traits as rt, DispatchErrorWithPostInfo};
pub use pallet_communities::{
	origin,
	types::{CommunityState, DecisionMethod, Tally, Vote},
	Call, Error, Event, FreezeReason, Pallet,
};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

macro_rules! no_type_info {
	($($t:ty),*) => { $(impl TypeInfo for $t {
		type Identity = Self;
		fn type_info() -> scale_info::Type {
			<() as TypeInfo>::type_info()
		}
	})* };
}
#[derive(Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct Chain;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RuntimeEvent(pub Event<Chain>);
impl From<Event<Chain>> for RuntimeEvent {
	fn from(e: Event<Chain>) -> Self {
		RuntimeEvent(e)
	}
}
type Community = origin::RawOrigin<Chain>;
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen)]
pub enum Caller {
	System(RawOrigin<AccountId32>),
	Communities(Community),
}
no_type_info!(Caller, RuntimeCall);
impl From<RawOrigin<AccountId32>> for Caller {
	fn from(o: RawOrigin<AccountId32>) -> Self {
		Caller::System(o)
	}
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RuntimeOrigin(pub Caller);
impl From<RawOrigin<AccountId32>> for RuntimeOrigin {
	fn from(o: RawOrigin<AccountId32>) -> Self {
		RuntimeOrigin(Caller::System(o))
	}
}
impl From<Community> for RuntimeOrigin {
	fn from(o: Community) -> Self {
		RuntimeOrigin(Caller::Communities(o))
	}
}
impl From<RuntimeOrigin> for Result<RawOrigin<AccountId32>, RuntimeOrigin> {
	fn from(o: RuntimeOrigin) -> Self {
		match o.0 {
			Caller::System(s) => Ok(s),
			c => Err(RuntimeOrigin(c)),
		}
	}
}
impl From<RuntimeOrigin> for Result<Community, RuntimeOrigin> {
	fn from(o: RuntimeOrigin) -> Self {
		match o.0 {
			Caller::Communities(s) => Ok(s),
			c => Err(RuntimeOrigin(c)),
		}
	}
}
impl OriginTrait for RuntimeOrigin {
	type Call = RuntimeCall;
	type PalletsOrigin = Caller;
	type AccountId = AccountId32;
	fn caller(&self) -> &Caller {
		&self.0
	}
	fn into_caller(self) -> Caller {
		self.0
	}
	fn as_system_ref(&self) -> Option<&RawOrigin<AccountId32>> {
		match &self.0 {
			Caller::System(s) => Some(s),
			_ => None,
		}
	}
	fn into_signer(self) -> Option<AccountId32> {
		match self.0 {
			Caller::System(RawOrigin::Signed(a)) => Some(a),
			_ => None,
		}
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub enum RuntimeCall {
	System(system::Call<Chain>),
	Communities(Box<Call<Chain>>),
	/// Moves native funds of the caller.
	Transfer(AccountId32, u128),
}
impl From<Call<Chain>> for RuntimeCall {
	fn from(c: Call<Chain>) -> Self {
		RuntimeCall::Communities(Box::new(c))
	}
}
impl From<system::Call<Chain>> for RuntimeCall {
	fn from(c: system::Call<Chain>) -> Self {
		RuntimeCall::System(c)
	}
}
impl IsSubType<Call<Chain>> for RuntimeCall {
	fn is_sub_type(&self) -> Option<&Call<Chain>> {
		match self {
			RuntimeCall::Communities(c) => Some(c),
			_ => None,
		}
	}
}
impl rt::Dispatchable for RuntimeCall {
	type RuntimeOrigin = RuntimeOrigin;
	type PostInfo = PostDispatchInfo;
	fn dispatch(self, origin: RuntimeOrigin) -> Result<PostDispatchInfo, DispatchErrorWithPostInfo<PostDispatchInfo>> {
		let by = format!("{:?}", origin);
		world::with(|w| w.notes.push(by));
		match self {
			RuntimeCall::System(_) => Ok(().into()),
			RuntimeCall::Communities(c) => c.dispatch_bypass_filter(origin),
			RuntimeCall::Transfer(to, n) => {
				let who = system::ensure_signed(origin)?;
				<ledger::Native<FreezeReason> as fungible::Mutate<_>>::transfer(&who, &to, n, tokens::Preservation::Expendable)?;
				Ok(().into())
			}
		}
	}
}
impl GetDispatchInfo for RuntimeCall {
	fn get_dispatch_info(&self) -> DispatchInfo {
		match self {
			RuntimeCall::Communities(c) => c.get_dispatch_info(),
			_ => DispatchInfo::default(),
		}
	}
}
impl system::Config for Chain {
	type AccountId = AccountId32;
	type Lookup = rt::IdentityLookup<AccountId32>;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Hashing = ();
	type DbWeight = mini::support::weights::constants::RocksDbWeight;
	type BlockNumber = u32;
}
/// Memberships, kept with the rest of the world.
pub struct Members;
impl mini::memberships::Inspect<AccountId32> for Members {
	type Group = u16;
	type Membership = u32;
	fn user_memberships(who: &AccountId32, group: Option<u16>) -> Box<dyn Iterator<Item = (u16, u32)>> {
		let w = who.0.to_vec();
		let v: Vec<_> = world::with(|x| x.members.iter().filter(|(k, v)| v.0 == w && group.map_or(true, |g| g == k.0)).map(|(k, _)| *k).collect());
		Box::new(v.into_iter())
	}
	fn is_member_of(group: &u16, who: &AccountId32) -> bool {
		Self::user_memberships(who, Some(*group)).next().is_some()
	}
	fn check_membership(who: &AccountId32, m: &u32) -> Option<u16> {
		Self::user_memberships(who, None).find(|x| x.1 == *m).map(|x| x.0)
	}
	fn members_total(group: &u16) -> u32 {
		let c = Pallet::<Chain>::community_account(group).0.to_vec();
		world::with(|x| x.members.iter().filter(|(k, v)| k.0 == *group && v.0 != c).count() as u32)
	}
}
impl mini::memberships::Manager<AccountId32, ()> for Members {
	fn assign(group: &u16, m: &u32, who: &AccountId32) -> Result<(), DispatchError> {
		world::with(|x| x.members.get_mut(&(*group, *m)).map(|v| v.0 = who.0.to_vec()).ok_or(DispatchError::Unavailable))
	}
	fn release(group: &u16, m: &u32) -> Result<(), DispatchError> {
		let c = Pallet::<Chain>::community_account(group);
		Self::assign(group, m, &c)
	}
}
impl mini::memberships::Rank<AccountId32, ()> for Members {
	fn rank_of(group: &u16, m: &u32) -> Option<GenericRank> {
		world::with(|x| x.members.get(&(*group, *m)).map(|v| GenericRank(v.1)))
	}
	fn set_rank(group: &u16, m: &u32, rank: GenericRank) -> Result<(), DispatchError> {
		world::with(|x| x.members.get_mut(&(*group, *m)).map(|v| v.1 = rank.0).ok_or(DispatchError::Unavailable))
	}
	fn ranks_total(group: &u16) -> u32 {
		world::with(|x| x.members.iter().filter(|(k, _)| k.0 == *group).map(|(_, v)| v.1 as u32).sum())
	}
}
pub struct Polls;
impl Polling<Tally<Chain>> for Polls {
	type Index = u32;
	type Votes = u32;
	type Class = u16;
	type Moment = u32;
	fn as_ongoing(i: u32) -> Option<(Tally<Chain>, u16)> {
		world::with(|w| w.polls.get(&i).cloned()).and_then(|(c, t)| Some((Tally::decode(&mut &t?[..]).unwrap(), c)))
	}
	fn try_access_poll<R>(i: u32, f: impl FnOnce(PollStatus<&mut Tally<Chain>, u32, u16>) -> Result<R, DispatchError>) -> Result<R, DispatchError> {
		match world::with(|w| w.polls.get(&i).cloned()) {
			None => f(PollStatus::None),
			Some((_, None)) => f(PollStatus::Completed(1, true)),
			Some((c, Some(t))) => {
				let mut t = Tally::decode(&mut &t[..]).unwrap();
				let r = f(PollStatus::Ongoing(&mut t, c))?;
				world::with(|w| w.polls.insert(i, (c, Some(t.encode()))));
				Ok(r)
			}
		}
	}
}
pub struct Price;
impl TypedGet for Price {
	type Type = u128;
	fn get() -> u128 {
		100
	}
}
pub struct Treasury;
impl TypedGet for Treasury {
	type Type = AccountId32;
	fn get() -> AccountId32 {
		acc("treasury")
	}
}
pub struct Free;
impl Morph<()> for Free {
	type Outcome = Option<(u128, AccountId32, AccountId32)>;
	fn morph(_: ()) -> Self::Outcome {
		None
	}
}
pub struct Id;
impl Get<PalletId> for Id {
	fn get() -> PalletId {
		PalletId(*b"communty")
	}
}
impl pallet_communities::Config for Chain {
	type CommunityId = u16;
	type MembershipId = u32;
	type ItemConfig = ();
	type MemberMgmt = Members;
	type CreateOrigin = EitherOf<MapSuccess<system::EnsureRoot<AccountId32>, Free>, origin::EnsureSignedPays<Chain, Price, Treasury>>;
	type AdminOrigin = origin::EnsureCommunity<Chain>;
	type MemberMgmtOrigin = origin::EnsureCommunity<Chain>;
	type Polls = Polls;
	type Assets = ledger::Assets<(), FreezeReason>;
	type AssetsFreezer = ledger::Assets<(), FreezeReason>;
	type Balances = ledger::Native<FreezeReason>;
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeFreezeReason = FreezeReason;
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type PalletId = Id;
}

pub fn signed(s: &str) -> RuntimeOrigin {
	RawOrigin::Signed(acc(s)).into()
}
pub fn root() -> RuntimeOrigin {
	RawOrigin::Root.into()
}
pub fn voice(c: u16) -> RuntimeOrigin {
	Community::new(c).into()
}
/// Performs a call as a transaction: what fails leaves nothing behind.
pub fn run(origin: RuntimeOrigin, call: Call<Chain>) -> Result<(), DispatchError> {
	world::attempt(|| call.dispatch_bypass_filter(origin)).map(|_| ()).map_err(|e| e.error)
}
pub const TOKEN: u32 = 9;
/// Communities 1 and 2 administrated by "admin1" and "admin2"; alice has
/// memberships 10 and 11 and bob 12 of the first, carol has 20 of the second,
/// and each community keeps two for newcomers.
pub fn setup() {
	world::restore(Default::default());
	for a in ["alice", "bob", "carol", "dave", "treasury"] {
		fund(0, &acc(a), 1_000_000);
		fund(TOKEN, &acc(a), 1_000_000);
	}
	for c in [1u16, 2] {
		let a = Caller::System(RawOrigin::Signed(acc(&format!("admin{c}"))));
		run(root(), Call::create { admin_origin: a, community_id: c }).unwrap();
		let own = Pallet::<Chain>::community_account(&c);
		fund(0, &own, 1000);
		for m in [1u32, 2] {
			member(c, c as u32 * 100 + m, &own, 0);
		}
	}
	member(1, 10, &acc("alice"), 3);
	member(1, 11, &acc("alice"), 1);
	member(1, 12, &acc("bob"), 2);
	member(2, 20, &acc("carol"), 2);
}
pub fn member(c: u16, m: u32, who: &AccountId32, rank: u8) {
	world::with(|w| w.members.insert((c, m), (who.0.to_vec(), rank)));
}
pub fn method(c: u16, m: DecisionMethod<u32, u128>) {
	run(signed(&format!("admin{c}")), Call::set_decision_method { community_id: c, decision_method: m }).unwrap()
}
pub fn open(i: u32, c: u16) {
	world::with(|w| w.polls.insert(i, (c, Some(Tally::<Chain>::default().encode()))));
}
pub fn close(i: u32) {
	world::with(|w| w.polls.get_mut(&i).unwrap().1 = None);
}
pub fn tally(i: u32) -> Tally<Chain> {
	Polls::as_ongoing(i).unwrap().0
}
/// ayes, nays and bare ayes
pub fn count(i: u32) -> (u32, u32, u32) {
	Decode::decode(&mut &tally(i).encode()[..]).unwrap()
}
pub fn vote(who: &str, m: u32, i: u32, v: Vote<u32, u128, u128>) -> Result<(), DispatchError> {
	run(signed(who), Call::vote { membership_id: m, poll_index: i, vote: v })
}
