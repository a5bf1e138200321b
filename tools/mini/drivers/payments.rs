//! A test chain around the payments pallet.
pub use mini::{
	ledger::{self, free, fund, held},
	sprt::{acc, AccountId32, DispatchError, Percent},
	support::{
		dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo},
		traits::*,
		BoundedVec, ConstU32, PalletId,
	},
	system::{self, RawOrigin},
	world,
};
use mini::sprt::{traits as rt, DispatchErrorWithPostInfo};
pub use pallet_payments::{Call, DisputeResult, Error, Event, FeeDetails, FeeHandler, Fees, HoldReason, Pallet, PaymentState, Role};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::cell::RefCell;

#[derive(Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct Chain;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RuntimeEvent(pub Event<Chain>);
impl From<Event<Chain>> for RuntimeEvent {
	fn from(e: Event<Chain>) -> Self {
		RuntimeEvent(e)
	}
}
impl TryFrom<RuntimeEvent> for Event<Chain> {
	type Error = ();
	fn try_from(e: RuntimeEvent) -> Result<Self, ()> {
		Ok(e.0)
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Caller(pub RawOrigin<AccountId32>);
impl From<RawOrigin<AccountId32>> for Caller {
	fn from(o: RawOrigin<AccountId32>) -> Self {
		Caller(o)
	}
}
impl CallerTrait<AccountId32> for Caller {
	fn as_system_ref(&self) -> Option<&RawOrigin<AccountId32>> {
		Some(&self.0)
	}
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RuntimeOrigin(pub Caller);
impl From<RawOrigin<AccountId32>> for RuntimeOrigin {
	fn from(o: RawOrigin<AccountId32>) -> Self {
		RuntimeOrigin(Caller(o))
	}
}
impl From<RuntimeOrigin> for Result<RawOrigin<AccountId32>, RuntimeOrigin> {
	fn from(o: RuntimeOrigin) -> Self {
		Ok(o.0 .0)
	}
}
impl OriginTrait for RuntimeOrigin {
	type Call = RuntimeCall;
	type PalletsOrigin = Caller;
	type AccountId = AccountId32;
	fn caller(&self) -> &Caller {
		&self.0
	}
	fn into_caller(self) -> Caller {
		self.0
	}
	fn as_system_ref(&self) -> Option<&RawOrigin<AccountId32>> {
		Some(&self.0 .0)
	}
	fn into_signer(self) -> Option<AccountId32> {
		match self.0 .0 {
			RawOrigin::Signed(a) => Some(a),
			_ => None,
		}
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub struct RuntimeCall(pub Call<Chain>);
impl TypeInfo for RuntimeCall {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		<() as TypeInfo>::type_info()
	}
}
impl From<Call<Chain>> for RuntimeCall {
	fn from(c: Call<Chain>) -> Self {
		RuntimeCall(c)
	}
}
impl rt::Dispatchable for RuntimeCall {
	type RuntimeOrigin = RuntimeOrigin;
	type PostInfo = PostDispatchInfo;
	fn dispatch(self, origin: RuntimeOrigin) -> Result<PostDispatchInfo, DispatchErrorWithPostInfo<PostDispatchInfo>> {
		self.0.dispatch_bypass_filter(origin)
	}
}
impl GetDispatchInfo for RuntimeCall {
	fn get_dispatch_info(&self) -> DispatchInfo {
		self.0.get_dispatch_info()
	}
}
impl system::Config for Chain {
	type AccountId = AccountId32;
	type Lookup = rt::IdentityLookup<AccountId32>;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Hashing = ();
	type DbWeight = mini::support::weights::constants::RocksDbWeight;
	type BlockNumber = u32;
}
pub struct Agenda;
impl schedule::v3::Named<u32, RuntimeCall, Caller> for Agenda {
	type Address = ();
	type Hasher = ();
	fn schedule_named(
		id: [u8; 32],
		when: schedule::DispatchTime<u32>,
		_: Option<(u32, u32)>,
		_: u8,
		origin: Caller,
		call: Bounded<RuntimeCall, ()>,
	) -> Result<(), DispatchError> {
		if world::fails() {
			return Err(DispatchError::Unavailable);
		}
		let at = match when {
			schedule::DispatchTime::At(b) => b,
			schedule::DispatchTime::After(b) => world::with(|w| w.block) + b + 1,
		};
		world::with(|w| match w.agenda.insert(id.to_vec(), (at, format!("{:?}", origin), (origin, call.0).encode())) {
			None => Ok(()),
			Some(_) => Err(DispatchError::Unavailable),
		})
	}
	fn cancel_named(id: [u8; 32]) -> Result<(), DispatchError> {
		world::with(|w| w.agenda.remove(&id.to_vec()).map(|_| ()).ok_or(DispatchError::Unavailable))
	}
}
pub struct Preimages;
impl QueryPreimage for Preimages {
	type H = ();
}
impl StorePreimage for Preimages {
	fn bound<T: Encode>(t: T) -> Result<Bounded<T, ()>, DispatchError> {
		Ok(Bounded(t.encode(), Default::default()))
	}
}
pub type FeeList = Vec<(AccountId32, u128, bool)>;
thread_local! {
	/// What the sender and the beneficiary of a payment are charged.
	pub static FEES: RefCell<(FeeList, FeeList)> = RefCell::default();
	/// The identifier of the next payment.
	pub static NEXT: RefCell<u64> = RefCell::new(0);
}
pub struct Schedule;
impl FeeHandler<Chain> for Schedule {
	fn apply_fees(_: &u32, _: &AccountId32, _: &AccountId32, _: &u128, _: Option<&[u8]>) -> Fees<Chain> {
		FEES.with(|f| {
			let (s, b) = f.borrow().clone();
			Fees {
				sender_pays: s.try_into().unwrap(),
				beneficiary_pays: b.try_into().unwrap(),
			}
		})
	}
}
impl pallet_payments::PaymentId<Chain> for u64 {
	fn next(_: &AccountId32, _: &AccountId32) -> Option<u64> {
		NEXT.with(|n| {
			*n.borrow_mut() += 1;
			Some(*n.borrow())
		})
	}
}
pub struct TheJudge;
impl Morph<()> for TheJudge {
	type Outcome = AccountId32;
	fn morph(_: ()) -> AccountId32 {
		acc("judge")
	}
}
pub struct Id;
impl Get<PalletId> for Id {
	fn get() -> PalletId {
		PalletId(*b"payments")
	}
}
pub struct Incentive;
impl Get<Percent> for Incentive {
	fn get() -> Percent {
		Percent::from_percent(10)
	}
}
impl pallet_payments::Config for Chain {
	type RuntimeEvent = RuntimeEvent;
	type PalletsOrigin = Caller;
	type RuntimeCall = RuntimeCall;
	type Assets = ledger::Assets<HoldReason, ()>;
	type AssetsBalance = u128;
	type FeeHandler = Schedule;
	type SenderOrigin = system::EnsureSigned<AccountId32>;
	type BeneficiaryOrigin = system::EnsureSigned<AccountId32>;
	type DisputeResolver = MapSuccess<system::EnsureRoot<AccountId32>, TheJudge>;
	type PaymentId = u64;
	type Scheduler = Agenda;
	type Preimages = Preimages;
	type RuntimeHoldReason = HoldReason;
	type WeightInfo = ();
	type PalletId = Id;
	type IncentivePercentage = Incentive;
	type MaxRemarkLength = ConstU32<50>;
	type MaxFees = ConstU32<50>;
	type MaxDiscounts = ConstU32<50>;
	type CancelBufferBlockLength = ConstU32<10>;
}

pub fn signed(s: &str) -> RuntimeOrigin {
	RawOrigin::Signed(acc(s)).into()
}
pub fn root() -> RuntimeOrigin {
	RawOrigin::Root.into()
}
/// Performs a call as a transaction: what fails leaves nothing behind.
pub fn run(origin: RuntimeOrigin, call: Call<Chain>) -> Result<(), DispatchError> {
	world::attempt(|| call.dispatch_bypass_filter(origin)).map(|_| ()).map_err(|e| e.error)
}
/// Moves to a block, performing what is scheduled; the outcome of each.
pub fn run_to(block: u32) -> Vec<Result<(), DispatchError>> {
	let mut out = vec![];
	while world::with(|w| w.block) < block {
		let now = world::with(|w| {
			w.block += 1;
			w.block
		});
		let due: Vec<_> = world::with(|w| w.agenda.iter().filter(|(_, v)| v.0 == now).map(|(k, v)| (k.clone(), v.2.clone())).collect());
		for (k, v) in due {
			world::with(|w| w.agenda.remove(&k));
			let (o, c) = <(Caller, Vec<u8>)>::decode(&mut &v[..]).unwrap();
			let c = RuntimeCall::decode(&mut &c[..]).unwrap();
			out.push(run(RuntimeOrigin(o), c.0));
		}
	}
	out
}
pub const ASSET: u32 = 7;
pub fn setup(sender: FeeList, beneficiary: FeeList) {
	world::restore(Default::default());
	world::with(|w| w.block = 1);
	NEXT.with(|n| *n.borrow_mut() = 0);
	FEES.with(|f| *f.borrow_mut() = (sender, beneficiary));
	for a in ["alice", "bob", "charlie", "judge", "shop"] {
		fund(ASSET, &acc(a), 1_000_000);
	}
}
pub fn all() -> u128 {
	world::with(|w| w.free.values().sum::<u128>() + w.held.values().sum::<u128>())
}
pub fn pay(from: &str, to: &str, amount: u128) -> Result<u64, DispatchError> {
	run(signed(from), Call::pay { beneficiary: acc(to), asset: ASSET, amount, remark: None })?;
	Ok(NEXT.with(|n| *n.borrow()))
}
pub fn ask(by: &str, from: &str, amount: u128) -> Result<u64, DispatchError> {
	run(signed(by), Call::request_payment { sender: acc(from), asset: ASSET, amount })?;
	Ok(NEXT.with(|n| *n.borrow()))
}
pub fn f(a: &str) -> u128 {
	free(ASSET, &acc(a))
}
pub fn h(a: &str) -> u128 {
	held(ASSET, &acc(a))
}
