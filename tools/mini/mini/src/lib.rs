//! In-memory stand-ins for the parts of the chain framework that the pallets use.
#![allow(clippy::all)]

pub mod world {
	use std::{cell::RefCell, collections::BTreeMap};
	/// Everything a call can change.
	#[derive(Clone, Default, PartialEq, Debug)]
	pub struct World {
		pub storage: BTreeMap<(String, Vec<u8>, Vec<u8>), Vec<u8>>,
		pub events: Vec<String>,
		pub block: u32,
		pub extrinsic: Option<u32>,
		/// (asset, account) -> free, held, frozen; asset 0 is the native token
		pub free: BTreeMap<(u32, Vec<u8>), u128>,
		pub held: BTreeMap<(u32, Vec<u8>), u128>,
		pub frozen: BTreeMap<(u32, Vec<u8>), u128>,
		/// name -> block, signer or origin, encoded call
		pub agenda: BTreeMap<Vec<u8>, (u32, String, Vec<u8>)>,
		pub providers: BTreeMap<Vec<u8>, u32>,
		/// memberships: (group, membership) -> holder, rank
		pub members: BTreeMap<(u16, u32), (Vec<u8>, u8)>,
		/// polls: index -> class, ayes, nays, bare ayes as encoded tally; None when finished
		pub polls: BTreeMap<u32, (u16, Option<Vec<u8>>)>,
		/// whatever the driver wants to note
		pub notes: Vec<String>,
		/// number of operations until an injected failure
		pub fuse: Option<u32>,
	}
	thread_local!(static W: RefCell<World> = RefCell::new(World::default()));
	pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
		W.with(|w| f(&mut w.borrow_mut()))
	}
	pub fn snapshot() -> World {
		with(|w| w.clone())
	}
	pub fn restore(x: World) {
		with(|w| *w = x)
	}
	/// Undoes everything when the operation fails.
	pub fn attempt<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
		let s = snapshot();
		let r = f();
		if r.is_err() {
			restore(s);
		}
		r
	}
	/// Counts an operation that can fail; true when it has to fail.
	pub fn fails() -> bool {
		with(|w| match w.fuse {
			Some(0) => {
				w.fuse = None;
				true
			}
			Some(n) => {
				w.fuse = Some(n - 1);
				false
			}
			None => false,
		})
	}
}

#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {
		if !$x {
			$crate::fail!($y);
		}
	};
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {
		return Err($y.into())
	};
}
#[macro_export]
macro_rules! morph_types {
	($(pub type $name:ident < $($p:ident $(: $b:ident $(<Type = $bt:ident>)?)?),* > : Morph = |$v:ident: $vt:ty| -> $rt:ty { $($e:tt)* };)*) => {
		$(pub struct $name<$($p),*>(core::marker::PhantomData<($($p,)*)>);
		impl<$($p $(: $b $(<Type = $bt>)?)?),*> $crate::sprt::traits::Morph<$vt> for $name<$($p),*> {
			type Outcome = $rt;
			fn morph($v: $vt) -> $rt { $($e)* }
		})*
	};
}

pub mod sprt {
	use parity_scale_codec::{Decode, Encode, EncodeLike, MaxEncodedLen};
	use scale_info::TypeInfo;
	pub use crate::morph_types;

	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum DispatchError {
		Other(&'static str),
		BadOrigin,
		CannotLookup,
		Module(&'static str),
		Token(&'static str),
		Arithmetic,
		Unavailable,
	}
	impl From<&'static str> for DispatchError {
		fn from(s: &'static str) -> Self {
			DispatchError::Other(s)
		}
	}
	impl From<traits::BadOrigin> for DispatchError {
		fn from(_: traits::BadOrigin) -> Self {
			DispatchError::BadOrigin
		}
	}
	impl From<traits::LookupError> for DispatchError {
		fn from(_: traits::LookupError) -> Self {
			DispatchError::CannotLookup
		}
	}
	pub type DispatchResult = Result<(), DispatchError>;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct DispatchErrorWithPostInfo<Info> {
		pub post_info: Info,
		pub error: DispatchError,
	}
	impl<T: Into<DispatchError>, Info: Default> From<T> for DispatchErrorWithPostInfo<Info> {
		fn from(t: T) -> Self {
			Self {
				post_info: Info::default(),
				error: t.into(),
			}
		}
	}
	pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;

	#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub struct AccountId32(pub [u8; 32]);
	impl core::fmt::Debug for AccountId32 {
		fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
			write!(f, "{}", String::from_utf8_lossy(&self.0).trim_end_matches('\0'))
		}
	}
	impl AsRef<[u8]> for AccountId32 {
		fn as_ref(&self) -> &[u8] {
			&self.0
		}
	}
	impl From<[u8; 32]> for AccountId32 {
		fn from(x: [u8; 32]) -> Self {
			AccountId32(x)
		}
	}
	impl From<AccountId32> for [u8; 32] {
		fn from(x: AccountId32) -> Self {
			x.0
		}
	}
	/// An account named by a text.
	pub fn acc(s: &str) -> AccountId32 {
		let mut b = [0; 32];
		b[..s.len()].copy_from_slice(s.as_bytes());
		AccountId32(b)
	}

	macro_rules! per {
		($n:ident, $t:ty, $acc:expr) => {
			#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
			pub struct $n($t);
			impl $n {
				pub const fn from_percent(x: $t) -> Self {
					Self(((if x > 100 { 100 } else { x }) as u128 * $acc as u128 / 100) as $t)
				}
				pub const fn from_parts(x: $t) -> Self {
					Self(if x > $acc { $acc } else { x })
				}
				pub fn from_rational<N: traits::Num>(p: N, q: N) -> Self {
					let (p, q) = (p.to_u128(), q.to_u128().max(1));
					let p = p.min(q);
					// scaled down so that the product cannot overflow
					let f = (q / (u128::MAX / $acc as u128)).max(0) + 1;
					Self(((p / f) * $acc as u128 / (q / f).max(1)) as $t)
				}
				pub const fn deconstruct(self) -> $t {
					self.0
				}
				pub fn mul_floor<N: traits::Num>(self, x: N) -> N {
					let x = x.to_u128();
					let a = $acc as u128;
					N::from_u128(x / a * self.0 as u128 + x % a * self.0 as u128 / a)
				}
				pub fn is_zero(&self) -> bool {
					self.0 == 0
				}
				pub const fn zero() -> Self {
					Self(0)
				}
				pub const fn one() -> Self {
					Self($acc)
				}
			}
			/// Rounds to the nearest, and down between two.
			impl<N: traits::Num> core::ops::Mul<N> for $n {
				type Output = N;
				fn mul(self, x: N) -> N {
					let x = x.to_u128();
					let a = $acc as u128;
					let r = x % a * self.0 as u128;
					N::from_u128(x / a * self.0 as u128 + r / a + (r % a > a / 2) as u128)
				}
			}
			impl PerThing for $n {
				type Inner = $t;
				const ACCURACY: $t = $acc;
			}
		};
	}
	pub trait PerThing {
		type Inner;
		const ACCURACY: Self::Inner;
	}
	per!(Percent, u8, 100u8);
	per!(Permill, u32, 1_000_000u32);
	per!(Perbill, u32, 1_000_000_000u32);

	#[derive(Encode, Decode, TypeInfo)]
	#[scale_info(skip_type_params(S))]
	pub struct BoundedVec<T, S>(Vec<T>, core::marker::PhantomData<S>);
	impl<T: Clone, S> Clone for BoundedVec<T, S> {
		fn clone(&self) -> Self {
			Self(self.0.clone(), Default::default())
		}
	}
	impl<T: Encode, S> EncodeLike<BoundedVec<T, S>> for Vec<T> {}
	impl<T: PartialEq, S> PartialEq for BoundedVec<T, S> {
		fn eq(&self, o: &Self) -> bool {
			self.0 == o.0
		}
	}
	impl<T: Eq, S> Eq for BoundedVec<T, S> {}
	impl<T: core::fmt::Debug, S> core::fmt::Debug for BoundedVec<T, S> {
		fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
			self.0.fmt(f)
		}
	}
	impl<T, S> Default for BoundedVec<T, S> {
		fn default() -> Self {
			Self(Vec::new(), Default::default())
		}
	}
	impl<T, S> core::ops::Deref for BoundedVec<T, S> {
		type Target = Vec<T>;
		fn deref(&self) -> &Vec<T> {
			&self.0
		}
	}
	impl<T, S: traits::Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
		type Error = ();
		fn try_from(v: Vec<T>) -> Result<Self, ()> {
			if v.len() as u32 > S::get() {
				Err(())
			} else {
				Ok(Self(v, Default::default()))
			}
		}
	}
	impl<T: MaxEncodedLen, S: traits::Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
		fn max_encoded_len() -> usize {
			4 + S::get() as usize * T::max_encoded_len()
		}
	}

	pub fn str_array<const N: usize>(s: &str) -> [u8; N] {
		let mut b = [0; N];
		let n = s.len().min(N);
		b[..n].copy_from_slice(&s.as_bytes()[..n]);
		b
	}

	pub use traits::{SaturatedConversion, Saturating};

	pub mod traits {
		use super::*;
		pub trait Get<T> {
			fn get() -> T;
		}
		impl Get<()> for () {
			fn get() {}
		}
		pub trait TypedGet {
			type Type;
			fn get() -> Self::Type;
		}
		/// A constant of the test configuration.
		pub struct Const<const N: u128>;
		macro_rules! consts { ($($t:ty),*) => { $(impl<const N: u128> Get<$t> for Const<N> { fn get() -> $t { N as $t } })* } }
		consts!(u8, u16, u32, u64, u128);
		#[derive(Debug, PartialEq, Eq, Clone, Copy)]
		pub struct BadOrigin;
		#[derive(Debug, PartialEq, Eq, Clone, Copy)]
		pub struct LookupError;
		pub trait StaticLookup {
			type Source: Clone + Eq + core::fmt::Debug + Encode + Decode + EncodeLike + TypeInfo;
			type Target;
			fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
			fn unlookup(t: Self::Target) -> Self::Source;
		}
		pub struct IdentityLookup<T>(core::marker::PhantomData<T>);
		impl<T: Clone + Eq + core::fmt::Debug + Encode + Decode + EncodeLike + TypeInfo> StaticLookup for IdentityLookup<T> {
			type Source = T;
			type Target = T;
			fn lookup(s: T) -> Result<T, LookupError> {
				Ok(s)
			}
			fn unlookup(t: T) -> T {
				t
			}
		}
		pub trait Num: Copy {
			fn to_u128(self) -> u128;
			fn from_u128(x: u128) -> Self;
		}
		pub trait Zero {
			fn zero() -> Self;
			fn is_zero(&self) -> bool;
		}
		pub trait One {
			fn one() -> Self;
		}
		pub trait Saturating: Sized {
			fn saturating_accrue(&mut self, o: Self)
			where
				Self: Copy,
			{
				*self = Saturating::saturating_add(*self, o)
			}
			fn saturating_reduce(&mut self, o: Self)
			where
				Self: Copy,
			{
				*self = Saturating::saturating_sub(*self, o)
			}
			fn saturating_add(self, o: Self) -> Self;
			fn saturating_sub(self, o: Self) -> Self;
			fn saturating_mul(self, o: Self) -> Self;
		}
		pub trait CheckedAdd: Sized {
			fn checked_add(&self, o: &Self) -> Option<Self>;
		}
		pub trait CheckedSub: Sized {
			fn checked_sub(&self, o: &Self) -> Option<Self>;
		}
		pub trait UniqueSaturatedInto<T> {
			fn unique_saturated_into(self) -> T;
		}
		impl<A: Num, B: Num + Bounded> UniqueSaturatedInto<B> for A {
			fn unique_saturated_into(self) -> B {
				B::from_u128(self.to_u128().min(B::max_value().to_u128()))
			}
		}
		pub trait Bounded {
			fn max_value() -> Self;
		}
		pub trait SaturatedConversion {
			fn saturated_into<T>(self) -> T
			where
				Self: UniqueSaturatedInto<T> + Sized,
			{
				self.unique_saturated_into()
			}
		}
		impl<T> SaturatedConversion for T {}
		macro_rules! num { ($($t:ty),*) => { $(
			impl Num for $t { fn to_u128(self) -> u128 { self as u128 } fn from_u128(x: u128) -> Self { x as $t } }
			impl Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
			impl One for $t { fn one() -> Self { 1 } }
			impl Saturating for $t {
				fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) }
				fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) }
				fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) }
			}
			impl CheckedAdd for $t { fn checked_add(&self, o: &Self) -> Option<Self> { <$t>::checked_add(*self, *o) } }
			impl CheckedSub for $t { fn checked_sub(&self, o: &Self) -> Option<Self> { <$t>::checked_sub(*self, *o) } }
			impl Bounded for $t { fn max_value() -> Self { <$t>::MAX } }
		)* } }
		num!(u8, u16, u32, u64, u128, usize);
		pub trait AtLeast32BitUnsigned:
			Num
			+ Zero
			+ One
			+ Saturating
			+ CheckedAdd
			+ CheckedSub
			+ Bounded
			+ Ord
			+ Copy
			+ From<u8>
			+ From<u16>
			+ From<u32>
			+ UniqueSaturatedInto<u32>
			+ UniqueSaturatedInto<u64>
			+ UniqueSaturatedInto<u128>
			+ core::ops::Add<Output = Self>
			+ core::ops::Sub<Output = Self>
			+ core::ops::Mul<Output = Self>
			+ core::ops::Div<Output = Self>
		{
		}
		impl AtLeast32BitUnsigned for u32 {}
		impl AtLeast32BitUnsigned for u64 {}
		impl AtLeast32BitUnsigned for u128 {}
		pub trait MaybeSerializeDeserialize {}
		impl<T> MaybeSerializeDeserialize for T {}
		pub trait Dispatchable {
			type RuntimeOrigin;
			type PostInfo;
			fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
		}
		pub trait TryConvert<A, B> {
			fn try_convert(a: A) -> Result<B, A>;
		}
		pub trait Morph<A> {
			type Outcome;
			fn morph(a: A) -> Self::Outcome;
		}
		pub trait AccountIdConversion<A>: Sized {
			fn into_account_truncating(&self) -> A {
				self.into_sub_account_truncating(&())
			}
			fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> A;
			fn try_from_sub_account<S: Decode>(a: &A) -> Option<(Self, S)>;
		}
		impl<A: Encode + Decode> AccountIdConversion<A> for crate::support::PalletId {
			fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> A {
				let mut v = b"modl".to_vec();
				v.extend(self.0);
				v.extend(sub.encode());
				v.resize(32, 0);
				A::decode(&mut &v[..]).expect("an account")
			}
			fn try_from_sub_account<S: Decode>(a: &A) -> Option<(Self, S)> {
				let a = a.encode();
				let mut i = a.strip_prefix(b"modl")?;
				let id = <[u8; 8]>::decode(&mut i).ok()?;
				let s = S::decode(&mut i).ok()?;
				i.iter().all(|x| *x == 0).then_some((crate::support::PalletId(id), s))
			}
		}
	}
}

pub mod support {
	use crate::sprt::traits as rt;
	use crate::world;
	pub use crate::{ensure, fail, sprt::*};
	pub use mini_macros::pallet;
	use core::marker::PhantomData;
	use parity_scale_codec::{Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
	use scale_info::TypeInfo;

	#[derive(Clone, Copy, PartialEq, Eq, Debug, TypeInfo)]
	pub enum Never {}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub struct PalletId(pub [u8; 8]);
	pub trait StorageName {
		const NAME: &'static str;
	}
	pub trait Parameter: Encode + Decode + EncodeLike + Clone + Eq + core::fmt::Debug + TypeInfo {}
	impl<T: Encode + Decode + EncodeLike + Clone + Eq + core::fmt::Debug + TypeInfo> Parameter for T {}
	pub trait Member: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}

	pub struct Blake2_128Concat;
	pub struct Twox64Concat;
	pub struct Identity;
	pub struct OptionQuery;
	pub struct ValueQuery;
	pub struct ResultQuery<E, G>(PhantomData<(E, G)>);
	pub trait QueryKind<V> {
		type Query;
		fn from_opt(v: Option<V>) -> Self::Query;
		fn into_opt(q: Self::Query) -> Option<V>;
	}
	impl<V> QueryKind<V> for OptionQuery {
		type Query = Option<V>;
		fn from_opt(v: Option<V>) -> Option<V> {
			v
		}
		fn into_opt(q: Option<V>) -> Option<V> {
			q
		}
	}
	impl<V: Default> QueryKind<V> for ValueQuery {
		type Query = V;
		fn from_opt(v: Option<V>) -> V {
			v.unwrap_or_default()
		}
		fn into_opt(q: V) -> Option<V> {
			Some(q)
		}
	}
	impl<V, E, G: rt::Get<E>> QueryKind<V> for ResultQuery<E, G> {
		type Query = Result<V, E>;
		fn from_opt(v: Option<V>) -> Result<V, E> {
			v.ok_or_else(G::get)
		}
		fn into_opt(q: Result<V, E>) -> Option<V> {
			q.ok()
		}
	}
	type Key = (String, Vec<u8>, Vec<u8>);
	fn load<V: Decode>(k: &Key) -> Option<V> {
		world::with(|w| w.storage.get(k).cloned()).map(|b| V::decode(&mut &b[..]).expect("decodes"))
	}
	fn store<V: Encode>(k: Key, v: Option<V>) {
		let v = v.map(|v| v.encode());
		world::with(|w| match v {
			Some(v) => {
				w.storage.insert(k, v);
			}
			None => {
				w.storage.remove(&k);
			}
		})
	}
	pub struct StorageValue<P, V, Q = OptionQuery>(PhantomData<(P, V, Q)>);
	impl<P: StorageName, V: FullCodec, Q: QueryKind<V>> StorageValue<P, V, Q> {
		fn key() -> Key {
			(P::NAME.into(), vec![], vec![])
		}
		pub fn get() -> Q::Query {
			Q::from_opt(load(&Self::key()))
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			store(Self::key(), Some(v))
		}
	}
	pub struct StorageMap<P, H, K, V, Q = OptionQuery>(PhantomData<(P, H, K, V, Q)>);
	impl<P: StorageName, H, K: FullCodec, V: FullCodec, Q: QueryKind<V>> StorageMap<P, H, K, V, Q> {
		fn key<A: EncodeLike<K>>(k: A) -> Key {
			(P::NAME.into(), k.encode(), vec![])
		}
		pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
			Q::from_opt(load(&Self::key(k)))
		}
		pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
			world::with(|w| w.storage.contains_key(&Self::key(k)))
		}
		pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
			store(Self::key(k), Some(v))
		}
		pub fn remove<A: EncodeLike<K>>(k: A) {
			store::<V>(Self::key(k), None)
		}
		pub fn set<A: EncodeLike<K>>(k: A, v: Q::Query) {
			store(Self::key(k), Q::into_opt(v))
		}
		pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query {
			let key = Self::key(k);
			let r = load(&key);
			store::<V>(key, None);
			Q::from_opt(r)
		}
		pub fn try_mutate<A: EncodeLike<K>, R, E>(k: A, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
			let key = Self::key(k);
			let mut q = Q::from_opt(load(&key));
			let r = f(&mut q);
			if r.is_ok() {
				store(key, Q::into_opt(q));
			}
			r
		}
		pub fn mutate<A: EncodeLike<K>, R>(k: A, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			Self::try_mutate(k, |q| Ok::<R, Never>(f(q))).unwrap_or_else(|n| match n {})
		}
	}
	pub struct StorageDoubleMap<P, H, K, H2, K2, V, Q = OptionQuery>(PhantomData<(P, H, K, H2, K2, V, Q)>);
	impl<P: StorageName, H, K: FullCodec, H2, K2: FullCodec, V: FullCodec, Q: QueryKind<V>> StorageDoubleMap<P, H, K, H2, K2, V, Q> {
		fn key<A: EncodeLike<K>, B: EncodeLike<K2>>(k: A, k2: B) -> Key {
			(P::NAME.into(), k.encode(), k2.encode())
		}
		pub fn get<A: EncodeLike<K>, B: EncodeLike<K2>>(k: A, k2: B) -> Q::Query {
			Q::from_opt(load(&Self::key(k, k2)))
		}
		pub fn contains_key<A: EncodeLike<K>, B: EncodeLike<K2>>(k: A, k2: B) -> bool {
			world::with(|w| w.storage.contains_key(&Self::key(k, k2)))
		}
		pub fn insert<A: EncodeLike<K>, B: EncodeLike<K2>, C: EncodeLike<V>>(k: A, k2: B, v: C) {
			store(Self::key(k, k2), Some(v))
		}
		pub fn remove<A: EncodeLike<K>, B: EncodeLike<K2>>(k: A, k2: B) {
			store::<V>(Self::key(k, k2), None)
		}
		pub fn take<A: EncodeLike<K>, B: EncodeLike<K2>>(k: A, k2: B) -> Q::Query {
			let key = Self::key(k, k2);
			let r = load(&key);
			store::<V>(key, None);
			Q::from_opt(r)
		}
		pub fn try_mutate<A: EncodeLike<K>, B: EncodeLike<K2>, R, E>(k: A, k2: B, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
			let key = Self::key(k, k2);
			let mut q = Q::from_opt(load(&key));
			let r = f(&mut q);
			if r.is_ok() {
				store(key, Q::into_opt(q));
			}
			r
		}
		pub fn mutate<A: EncodeLike<K>, B: EncodeLike<K2>, R>(k: A, k2: B, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			Self::try_mutate(k, k2, |q| Ok::<R, Never>(f(q))).unwrap_or_else(|n| match n {})
		}
		pub fn iter_prefix<A: EncodeLike<K>>(k: A) -> std::vec::IntoIter<(K2, V)> {
			let k = k.encode();
			world::with(|w| {
				w.storage
					.iter()
					.filter(|(x, _)| x.0 == P::NAME && x.1 == k)
					.map(|(x, v)| (K2::decode(&mut &x.2[..]).unwrap(), V::decode(&mut &v[..]).unwrap()))
					.collect::<Vec<_>>()
			})
			.into_iter()
		}
		pub fn iter_prefix_values<A: EncodeLike<K>>(k: A) -> std::vec::IntoIter<V> {
			Self::iter_prefix(k).map(|x| x.1).collect::<Vec<_>>().into_iter()
		}
	}

	pub mod weights {
		use super::*;
		#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
		pub struct Weight {
			pub ref_time: u64,
			pub proof_size: u64,
		}
		impl Weight {
			pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
			pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
				Weight { ref_time, proof_size }
			}
			pub const fn zero() -> Self {
				Weight { ref_time: 0, proof_size: 0 }
			}
			pub fn ref_time(&self) -> u64 {
				self.ref_time
			}
			pub fn proof_size(&self) -> u64 {
				self.proof_size
			}
			pub fn saturating_add(self, o: Self) -> Self {
				Weight::from_parts(self.ref_time.saturating_add(o.ref_time), self.proof_size.saturating_add(o.proof_size))
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				Weight::from_parts(self.ref_time.saturating_sub(o.ref_time), self.proof_size.saturating_sub(o.proof_size))
			}
			pub fn max(self, o: Self) -> Self {
				Weight::from_parts(self.ref_time.max(o.ref_time), self.proof_size.max(o.proof_size))
			}
			pub fn min(self, o: Self) -> Self {
				Weight::from_parts(self.ref_time.min(o.ref_time), self.proof_size.min(o.proof_size))
			}
			pub fn saturating_mul(self, n: u64) -> Self {
				Weight::from_parts(self.ref_time.saturating_mul(n), self.proof_size.saturating_mul(n))
			}
		}
		impl core::ops::Mul<u64> for Weight {
			type Output = Weight;
			fn mul(self, n: u64) -> Weight {
				self.saturating_mul(n)
			}
		}
		#[derive(Clone, Copy, Default)]
		pub struct RuntimeDbWeight {
			pub read: u64,
			pub write: u64,
		}
		impl RuntimeDbWeight {
			pub fn reads(self, n: u64) -> Weight {
				Weight::from_parts(self.read * n, 0)
			}
			pub fn writes(self, n: u64) -> Weight {
				Weight::from_parts(self.write * n, 0)
			}
			pub fn reads_writes(self, r: u64, w: u64) -> Weight {
				self.reads(r).saturating_add(self.writes(w))
			}
		}
		pub mod constants {
			pub struct RocksDbWeight;
			impl RocksDbWeight {
				pub fn get() -> super::RuntimeDbWeight {
					super::RuntimeDbWeight { read: 25_000, write: 100_000 }
				}
			}
			impl crate::sprt::traits::Get<super::RuntimeDbWeight> for RocksDbWeight {
				fn get() -> super::RuntimeDbWeight {
					RocksDbWeight::get()
				}
			}
		}
	}
	pub mod dispatch {
		use super::{weights::Weight, *};
		#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
		pub struct PostDispatchInfo {
			pub actual_weight: Option<Weight>,
		}
		impl From<()> for PostDispatchInfo {
			fn from(_: ()) -> Self {
				Self::default()
			}
		}
		pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo<PostDispatchInfo>>;
		pub type DispatchResult = super::DispatchResult;
		#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
		pub enum DispatchClass {
			#[default]
			Normal,
			Operational,
			Mandatory,
		}
		#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
		pub struct DispatchInfo {
			pub weight: Weight,
			pub class: DispatchClass,
		}
		pub trait GetDispatchInfo {
			fn get_dispatch_info(&self) -> DispatchInfo;
		}
		pub trait IntoInfo {
			fn into_info(self) -> DispatchInfo;
		}
		impl IntoInfo for Weight {
			fn into_info(self) -> DispatchInfo {
				DispatchInfo { weight: self, class: DispatchClass::Normal }
			}
		}
		impl IntoInfo for (Weight, DispatchClass) {
			fn into_info(self) -> DispatchInfo {
				DispatchInfo { weight: self.0, class: self.1 }
			}
		}
	}

	pub mod pallet_prelude {
		pub use super::dispatch::{DispatchResult, DispatchResultWithPostInfo};
		pub use super::traits::{EnsureOrigin, Get, IsType, TypedGet};
		pub use super::weights::Weight;
		pub use super::{
			ensure, Blake2_128Concat, BoundedVec, DispatchError, Identity, Member, OptionQuery, Parameter, ResultQuery, StorageDoubleMap, StorageMap, StorageValue, Twox64Concat, ValueQuery,
		};
		pub use crate::sprt::traits::{Const, MaybeSerializeDeserialize};
		pub use core::marker::PhantomData;
		pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
		pub use scale_info::TypeInfo;
		pub use super::ConstU32;
	}
	pub struct ConstU32<const N: u32>;
	impl<const N: u32> rt::Get<u32> for ConstU32<N> {
		fn get() -> u32 {
			N
		}
	}

	pub mod traits {
		use super::*;
		pub use crate::sprt::traits::{Get, Morph, TypedGet};
		pub use tokens::{fungible, fungibles, nonfungibles_v2};

		pub trait IsType<T>: Into<T> + From<T> {}
		impl<T> IsType<T> for T {}
		pub trait IsSubType<T> {
			fn is_sub_type(&self) -> Option<&T>;
		}
		pub trait Incrementable: Sized {
			fn increment(&self) -> Option<Self>;
		}
		impl Incrementable for u32 {
			fn increment(&self) -> Option<Self> {
				self.checked_add(1)
			}
		}
		pub trait CallerTrait<A>: Clone + Eq + core::fmt::Debug + From<crate::system::RawOrigin<A>> {
			fn as_system_ref(&self) -> Option<&crate::system::RawOrigin<A>>;
		}
		pub trait OriginTrait: Sized + Clone {
			type Call;
			type PalletsOrigin: Parameter + MaxEncodedLen + From<crate::system::RawOrigin<Self::AccountId>>;
			type AccountId;
			fn caller(&self) -> &Self::PalletsOrigin;
			fn into_caller(self) -> Self::PalletsOrigin;
			fn as_system_ref(&self) -> Option<&crate::system::RawOrigin<Self::AccountId>>;
			fn into_signer(self) -> Option<Self::AccountId>;
		}
		pub trait EnsureOrigin<O> {
			type Success;
			fn try_origin(o: O) -> Result<Self::Success, O>;
			fn ensure_origin(o: O) -> Result<Self::Success, rt::BadOrigin> {
				Self::try_origin(o).map_err(|_| rt::BadOrigin)
			}
		}
		pub trait EnsureOriginWithArg<O, A> {
			type Success;
			fn try_origin(o: O, a: &A) -> Result<Self::Success, O>;
		}
		pub struct MapSuccess<E, M>(PhantomData<(E, M)>);
		impl<O, E: EnsureOrigin<O>, M: Morph<E::Success>> EnsureOrigin<O> for MapSuccess<E, M> {
			type Success = M::Outcome;
			fn try_origin(o: O) -> Result<Self::Success, O> {
				E::try_origin(o).map(M::morph)
			}
		}
		/// The first that admits the caller.
		pub struct EitherOf<A, B>(PhantomData<(A, B)>);
		impl<O, A: EnsureOrigin<O>, B: EnsureOrigin<O, Success = A::Success>> EnsureOrigin<O> for EitherOf<A, B> {
			type Success = A::Success;
			fn try_origin(o: O) -> Result<Self::Success, O> {
				A::try_origin(o).or_else(B::try_origin)
			}
		}
		pub trait Contains<T> {
			fn contains(t: &T) -> bool;
		}
		pub trait InstanceFilter<C>: Sized {
			fn filter(&self, c: &C) -> bool;
			fn is_superset(&self, _: &Self) -> bool {
				false
			}
		}
		pub trait PrivilegeCmp<O> {
			fn cmp_privilege(l: &O, r: &O) -> Option<core::cmp::Ordering>;
		}

		#[derive(Clone, PartialEq, Eq, Debug)]
		pub struct Bounded<T, H>(pub Vec<u8>, pub PhantomData<(T, H)>);
		pub trait QueryPreimage {
			type H;
		}
		pub trait StorePreimage: QueryPreimage {
			fn bound<T: Encode>(t: T) -> Result<Bounded<T, Self::H>, DispatchError>;
		}
		pub mod schedule {
			use super::super::*;
			pub const HIGHEST_PRIORITY: u8 = 0;
			pub const HARD_DEADLINE: u8 = 63;
			pub const LOWEST_PRIORITY: u8 = 255;
			#[derive(Clone, Copy, PartialEq, Eq, Debug)]
			pub enum DispatchTime<B> {
				At(B),
				After(B),
			}
			pub mod v3 {
				use super::*;
				pub type TaskName = [u8; 32];
				pub trait Named<B, C, O> {
					type Address;
					type Hasher;
					fn schedule_named(
						id: TaskName,
						when: DispatchTime<B>,
						maybe_periodic: Option<(B, u32)>,
						priority: u8,
						origin: O,
						call: super::super::Bounded<C, Self::Hasher>,
					) -> Result<Self::Address, DispatchError>;
					fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
				}
			}
		}

		pub enum PollStatus<T, M, C> {
			None,
			Ongoing(T, C),
			Completed(M, bool),
		}
		impl<T, M, C> PollStatus<T, M, C> {
			pub fn ensure_ongoing(self) -> Option<(T, C)> {
				match self {
					PollStatus::Ongoing(t, c) => Some((t, c)),
					_ => None,
				}
			}
		}
		pub trait Polling<Tally> {
			type Index: Parameter + Copy + MaxEncodedLen + Ord;
			type Votes;
			type Class;
			type Moment;
			fn as_ongoing(i: Self::Index) -> Option<(Tally, Self::Class)>;
			fn try_access_poll<R>(i: Self::Index, f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>) -> Result<R, DispatchError>;
		}
		pub trait VoteTally<Votes, Class> {
			fn new(c: Class) -> Self;
			fn ayes(&self, c: Class) -> Votes;
			fn support(&self, c: Class) -> crate::sprt::Perbill;
			fn approval(&self, c: Class) -> crate::sprt::Perbill;
		}
		pub trait RankedMembers {
			type AccountId;
			fn induct(who: &Self::AccountId) -> DispatchResult;
		}

		pub mod tokens {
			use super::super::*;
			#[derive(Clone, Copy, PartialEq, Eq, Debug)]
			pub enum Preservation {
				Expendable,
				Protect,
				Preserve,
			}
			#[derive(Clone, Copy, PartialEq, Eq, Debug)]
			pub enum Precision {
				Exact,
				BestEffort,
			}
			#[derive(Clone, Copy, PartialEq, Eq, Debug)]
			pub enum Fortitude {
				Polite,
				Force,
			}
			pub trait AssetId: Parameter + Clone + Eq + core::fmt::Debug + MaxEncodedLen {}
			impl<T: Parameter + MaxEncodedLen> AssetId for T {}
			pub trait Balance: rt::AtLeast32BitUnsigned + Parameter + Member + Default + MaxEncodedLen {}
			impl<T: rt::AtLeast32BitUnsigned + Parameter + Member + Default + MaxEncodedLen> Balance for T {}

			pub mod fungibles {
				use super::*;
				pub trait Inspect<A> {
					type AssetId: super::AssetId;
					type Balance: super::Balance;
					fn total_issuance(asset: Self::AssetId) -> Self::Balance;
					fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
					fn balance(asset: Self::AssetId, who: &A) -> Self::Balance;
				}
				pub trait Mutate<A>: Inspect<A> {
					fn transfer(asset: Self::AssetId, from: &A, to: &A, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
					fn mint_into(asset: Self::AssetId, who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
				}
				pub trait Balanced<A>: Inspect<A> {}
				pub trait Create<A>: Inspect<A> {
					fn create(id: Self::AssetId, admin: A, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
				}
				pub mod hold {
					use super::*;
					pub trait Inspect<A>: super::Inspect<A> {
						type Reason;
						fn balance_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &A) -> Self::Balance;
						fn total_balance_on_hold(asset: Self::AssetId, who: &A) -> Self::Balance;
					}
					pub trait Mutate<A>: Inspect<A> {
						fn hold(asset: Self::AssetId, reason: &Self::Reason, who: &A, amount: Self::Balance) -> DispatchResult;
						fn release(asset: Self::AssetId, reason: &Self::Reason, who: &A, amount: Self::Balance, p: Precision) -> Result<Self::Balance, DispatchError>;
						fn transfer_and_hold(
							asset: Self::AssetId,
							reason: &Self::Reason,
							from: &A,
							to: &A,
							amount: Self::Balance,
							precision: Precision,
							expendability: Preservation,
							force: Fortitude,
						) -> Result<Self::Balance, DispatchError>;
						fn transfer_on_hold(
							asset: Self::AssetId,
							reason: &Self::Reason,
							from: &A,
							to: &A,
							amount: Self::Balance,
							precision: Precision,
							mode: Restriction,
							force: Fortitude,
						) -> Result<Self::Balance, DispatchError>;
					}
				}
				pub mod freeze {
					use super::*;
					pub trait Inspect<A>: super::Inspect<A> {
						type Id;
						fn balance_frozen(asset: Self::AssetId, id: &Self::Id, who: &A) -> Self::Balance;
					}
					pub trait Mutate<A>: Inspect<A> {
						fn set_frozen(asset: Self::AssetId, id: &Self::Id, who: &A, amount: Self::Balance, f: Fortitude) -> DispatchResult;
						fn set_freeze(asset: Self::AssetId, id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult {
							Self::set_frozen(asset, id, who, amount, Fortitude::Force)
						}
						fn extend_freeze(asset: Self::AssetId, id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult {
							let amount = Self::balance_frozen(asset.clone(), id, who).max(amount);
							Self::set_freeze(asset, id, who, amount)
						}
						fn thaw(asset: Self::AssetId, id: &Self::Id, who: &A) -> DispatchResult {
							Self::set_freeze(asset, id, who, rt::Zero::zero())
						}
					}
				}
				pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
				pub use hold::{Inspect as InspectHold, Mutate as MutateHold};
			}
			#[derive(Clone, Copy, PartialEq, Eq, Debug)]
			pub enum Restriction {
				Free,
				OnHold,
			}
			pub mod fungible {
				use super::*;
				pub trait Inspect<A> {
					type Balance: super::Balance;
					fn total_issuance() -> Self::Balance;
					fn minimum_balance() -> Self::Balance;
					fn balance(who: &A) -> Self::Balance;
				}
				pub trait Mutate<A>: Inspect<A> {
					fn transfer(from: &A, to: &A, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
				}
				pub mod freeze {
					use super::*;
					pub trait Inspect<A>: super::Inspect<A> {
						type Id;
						fn balance_frozen(id: &Self::Id, who: &A) -> Self::Balance;
					}
					pub trait Mutate<A>: Inspect<A> {
						fn set_frozen(id: &Self::Id, who: &A, amount: Self::Balance, f: Fortitude) -> DispatchResult;
						fn set_freeze(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult {
							Self::set_frozen(id, who, amount, Fortitude::Force)
						}
						fn extend_freeze(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult {
							let amount = Self::balance_frozen(id, who).max(amount);
							Self::set_freeze(id, who, amount)
						}
						fn thaw(id: &Self::Id, who: &A) -> DispatchResult {
							Self::set_freeze(id, who, rt::Zero::zero())
						}
					}
				}
				pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
			}
			pub mod nonfungibles_v2 {
				use super::*;
				pub trait Inspect<A> {
					type CollectionId;
					type ItemId;
				}
				pub trait Create<A, Config> {
					type CollectionId;
					fn create_collection_with_id(id: Self::CollectionId, who: &A, admin: &A, config: &Config) -> Result<(), DispatchError>;
				}
				pub trait Mutate<A, Config> {
					type CollectionId;
					type ItemId;
					fn mint_into(c: &Self::CollectionId, i: &Self::ItemId, who: &A, config: &Config, deposit: bool) -> DispatchResult;
				}
				pub trait Trading<A, Price> {
					type CollectionId;
					type ItemId;
					fn set_price(c: &Self::CollectionId, i: &Self::ItemId, sender: &A, price: Option<Price>, buyer: Option<A>) -> DispatchResult;
				}
			}
		}
	}
}

pub mod system {
	use crate::{
		sprt::traits as rt,
		support::{traits::*, *},
		world,
	};
	use core::marker::PhantomData;
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;

	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub enum RawOrigin<A> {
		Root,
		Signed(A),
		None,
	}
	pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

	pub trait Config: 'static + Clone + Eq + core::fmt::Debug + TypeInfo {
		type AccountId: Parameter + Member + Ord + MaxEncodedLen;
		type Lookup: rt::StaticLookup<Target = Self::AccountId>;
		type RuntimeEvent: Parameter2;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ OriginTrait<AccountId = Self::AccountId>;
		type RuntimeCall;
		type Hashing;
		type DbWeight: rt::Get<weights::RuntimeDbWeight>;
		type BlockNumber: tokens::Balance + Into<u32>;
	}
	/// What an event of the runtime has to be able to do here.
	pub trait Parameter2: Clone + PartialEq + core::fmt::Debug {}
	impl<T: Clone + PartialEq + core::fmt::Debug> Parameter2 for T {}
	use crate::support::traits::tokens;

	pub struct Pallet<T>(PhantomData<T>);
	impl<T: Config> Pallet<T> {
		pub fn block_number() -> T::BlockNumber {
			world::with(|w| w.block).into()
		}
		pub fn extrinsic_index() -> Option<u32> {
			world::with(|w| w.extrinsic)
		}
		pub fn deposit_event(e: T::RuntimeEvent) {
			let e = format!("{:?}", e);
			world::with(|w| w.events.push(e))
		}
		pub fn inc_providers(who: &T::AccountId) {
			let k = who.encode();
			world::with(|w| *w.providers.entry(k).or_default() += 1)
		}
	}
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
	pub enum Call<T: Config> {
		remark { remark: Vec<u8> },
		#[codec(skip)]
		__Ignore(PhantomData<T>, Never),
	}
	pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, rt::BadOrigin> {
		match o.into() {
			Ok(RawOrigin::Signed(a)) => Ok(a),
			_ => Err(rt::BadOrigin),
		}
	}
	pub struct EnsureSigned<A>(PhantomData<A>);
	impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
		type Success = A;
		fn try_origin(o: O) -> Result<A, O> {
			o.into().and_then(|o| match o {
				RawOrigin::Signed(a) => Ok(a),
				r => Err(O::from(r)),
			})
		}
	}
	pub struct EnsureRoot<A>(PhantomData<A>);
	impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
		type Success = ();
		fn try_origin(o: O) -> Result<(), O> {
			o.into().and_then(|o| match o {
				RawOrigin::Root => Ok(()),
				r => Err(O::from(r)),
			})
		}
	}
	pub mod pallet_prelude {
		pub use super::ensure_signed;
		pub type BlockNumberFor<T> = <T as super::Config>::BlockNumber;
		pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
	}
}

pub mod io {
	pub mod hashing {
		/// Not the real hash: distinct inputs of up to 31 bytes stay distinct.
		pub fn blake2_256(b: &[u8]) -> [u8; 32] {
			let mut h = [0u8; 32];
			for (i, x) in b.iter().enumerate() {
				let j = i % 31;
				h[j] = h[j].wrapping_mul(31).wrapping_add(*x);
			}
			h[31] = b.len() as u8;
			h
		}
	}
}

pub mod stdlib {
	pub use std::*;
	pub mod prelude {
		pub use std::{borrow::ToOwned, boxed::Box, vec::Vec};
	}
}

/// Funds of the test chain: every reason shares one pot per account.
pub mod ledger {
	use crate::{
		sprt::AccountId32,
		support::{traits::tokens::*, *},
		world::{self, World},
	};
	use core::marker::PhantomData;
	pub struct Assets<R, F>(PhantomData<(R, F)>);
	pub struct Native<F>(PhantomData<F>);

	fn get(m: &std::collections::BTreeMap<(u32, Vec<u8>), u128>, a: u32, w: &AccountId32) -> u128 {
		m.get(&(a, w.0.to_vec())).copied().unwrap_or(0)
	}
	pub fn free(a: u32, w: &AccountId32) -> u128 {
		world::with(|x| get(&x.free, a, w))
	}
	pub fn held(a: u32, w: &AccountId32) -> u128 {
		world::with(|x| get(&x.held, a, w))
	}
	pub fn frozen(a: u32, w: &AccountId32) -> u128 {
		world::with(|x| get(&x.frozen, a, w))
	}
	pub fn fund(a: u32, w: &AccountId32, n: u128) {
		world::with(|x| *x.free.entry((a, w.0.to_vec())).or_default() += n)
	}
	fn take(x: &mut World, a: u32, w: &AccountId32, n: u128, p: Preservation) -> Result<(), DispatchError> {
		let f = get(&x.free, a, w);
		let stay = if p == Preservation::Expendable { 0 } else { 1 };
		if n > 0 && f.checked_sub(n).map_or(true, |r| r < stay) {
			return Err(DispatchError::Token("FundsUnavailable"));
		}
		x.free.insert((a, w.0.to_vec()), f - n);
		Ok(())
	}
	fn moved(a: u32, s: &AccountId32, d: &AccountId32, n: u128, p: Preservation) -> Result<u128, DispatchError> {
		if world::fails() {
			return Err(DispatchError::Token("Injected"));
		}
		world::with(|x| {
			take(x, a, s, n, p)?;
			*x.free.entry((a, d.0.to_vec())).or_default() += n;
			Ok(n)
		})
	}
	fn issued(a: u32) -> u128 {
		world::with(|x| {
			let s = |m: &std::collections::BTreeMap<(u32, Vec<u8>), u128>| m.iter().filter(|(k, _)| k.0 == a).map(|(_, v)| *v).sum::<u128>();
			s(&x.free) + s(&x.held)
		})
	}
	impl<R, F> fungibles::Inspect<AccountId32> for Assets<R, F> {
		type AssetId = u32;
		type Balance = u128;
		fn total_issuance(a: u32) -> u128 {
			issued(a)
		}
		fn minimum_balance(_: u32) -> u128 {
			1
		}
		fn balance(a: u32, w: &AccountId32) -> u128 {
			free(a, w)
		}
	}
	impl<R, F> fungibles::Mutate<AccountId32> for Assets<R, F> {
		fn transfer(a: u32, s: &AccountId32, d: &AccountId32, n: u128, p: Preservation) -> Result<u128, DispatchError> {
			moved(a, s, d, n, p)
		}
		fn mint_into(a: u32, w: &AccountId32, n: u128) -> Result<u128, DispatchError> {
			fund(a, w, n);
			Ok(n)
		}
	}
	impl<R, F> fungibles::Balanced<AccountId32> for Assets<R, F> {}
	impl<R, F> fungibles::Create<AccountId32> for Assets<R, F> {
		fn create(a: u32, owner: AccountId32, sufficient: bool, min: u128) -> DispatchResult {
			world::with(|x| x.notes.push(format!("asset {a} {owner:?} {sufficient} {min}")));
			Ok(())
		}
	}
	impl<R, F> fungibles::hold::Inspect<AccountId32> for Assets<R, F> {
		type Reason = R;
		fn balance_on_hold(a: u32, _: &R, w: &AccountId32) -> u128 {
			held(a, w)
		}
		fn total_balance_on_hold(a: u32, w: &AccountId32) -> u128 {
			held(a, w)
		}
	}
	impl<R, F> fungibles::hold::Mutate<AccountId32> for Assets<R, F> {
		fn hold(a: u32, _: &R, w: &AccountId32, n: u128) -> DispatchResult {
			if world::fails() {
				return Err(DispatchError::Token("Injected"));
			}
			world::with(|x| {
				take(x, a, w, n, Preservation::Expendable)?;
				*x.held.entry((a, w.0.to_vec())).or_default() += n;
				Ok(())
			})
		}
		fn release(a: u32, _: &R, w: &AccountId32, n: u128, p: Precision) -> Result<u128, DispatchError> {
			if world::fails() {
				return Err(DispatchError::Token("Injected"));
			}
			world::with(|x| {
				let h = get(&x.held, a, w);
				if h < n && p == Precision::Exact {
					return Err(DispatchError::Token("FundsUnavailable"));
				}
				let n = n.min(h);
				x.held.insert((a, w.0.to_vec()), h - n);
				*x.free.entry((a, w.0.to_vec())).or_default() += n;
				Ok(n)
			})
		}
		fn transfer_and_hold(a: u32, r: &R, s: &AccountId32, d: &AccountId32, n: u128, _: Precision, p: Preservation, _: Fortitude) -> Result<u128, DispatchError> {
			moved(a, s, d, n, p)?;
			Self::hold(a, r, d, n)?;
			Ok(n)
		}
		fn transfer_on_hold(a: u32, r: &R, s: &AccountId32, d: &AccountId32, n: u128, p: Precision, mode: Restriction, _: Fortitude) -> Result<u128, DispatchError> {
			let n = Self::release(a, r, s, n, p)?;
			moved(a, s, d, n, Preservation::Expendable)?;
			if mode == Restriction::OnHold {
				Self::hold(a, r, d, n)?;
			}
			Ok(n)
		}
	}
	fn set(a: u32, w: &AccountId32, n: u128) -> DispatchResult {
		if world::fails() {
			return Err(DispatchError::Token("Injected"));
		}
		world::with(|x| x.frozen.insert((a, w.0.to_vec()), n));
		Ok(())
	}
	impl<R, F> fungibles::freeze::Inspect<AccountId32> for Assets<R, F> {
		type Id = F;
		fn balance_frozen(a: u32, _: &F, w: &AccountId32) -> u128 {
			frozen(a, w)
		}
	}
	impl<R, F> fungibles::freeze::Mutate<AccountId32> for Assets<R, F> {
		fn set_frozen(a: u32, _: &F, w: &AccountId32, n: u128, _: Fortitude) -> DispatchResult {
			set(a, w, n)
		}
	}
	impl<F> fungible::Inspect<AccountId32> for Native<F> {
		type Balance = u128;
		fn total_issuance() -> u128 {
			issued(0)
		}
		fn minimum_balance() -> u128 {
			1
		}
		fn balance(w: &AccountId32) -> u128 {
			free(0, w)
		}
	}
	impl<F> fungible::Mutate<AccountId32> for Native<F> {
		fn transfer(s: &AccountId32, d: &AccountId32, n: u128, p: Preservation) -> Result<u128, DispatchError> {
			moved(0, s, d, n, p)
		}
	}
	impl<F> fungible::freeze::Inspect<AccountId32> for Native<F> {
		type Id = F;
		fn balance_frozen(_: &F, w: &AccountId32) -> u128 {
			frozen(0, w)
		}
	}
	impl<F> fungible::freeze::Mutate<AccountId32> for Native<F> {
		fn set_frozen(_: &F, w: &AccountId32, n: u128, _: Fortitude) -> DispatchResult {
			set(0, w, n)
		}
	}
}

pub mod memberships {
	use crate::support::*;
	use core::num::NonZeroU8;
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub struct GenericRank(pub u8);
	impl GenericRank {
		pub fn promote_by(self, n: NonZeroU8) -> Self {
			GenericRank(self.0.saturating_add(n.get()))
		}
		pub fn demote_by(self, n: NonZeroU8) -> Self {
			GenericRank(self.0.saturating_sub(n.get()))
		}
	}
	impl From<GenericRank> for u32 {
		fn from(r: GenericRank) -> u32 {
			r.0 as u32
		}
	}
	pub trait Inspect<A> {
		type Group;
		type Membership;
		fn user_memberships(who: &A, group: Option<Self::Group>) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>>;
		fn is_member_of(group: &Self::Group, who: &A) -> bool;
		fn check_membership(who: &A, m: &Self::Membership) -> Option<Self::Group>;
		fn members_total(group: &Self::Group) -> u32;
	}
	pub trait Manager<A, C>: Inspect<A> {
		fn assign(group: &Self::Group, m: &Self::Membership, who: &A) -> Result<(), DispatchError>;
		fn release(group: &Self::Group, m: &Self::Membership) -> Result<(), DispatchError>;
	}
	pub trait Rank<A, C>: Inspect<A> {
		fn rank_of(group: &Self::Group, m: &Self::Membership) -> Option<GenericRank>;
		fn set_rank(group: &Self::Group, m: &Self::Membership, rank: GenericRank) -> Result<(), DispatchError>;
		fn ranks_total(group: &Self::Group) -> u32;
	}
}

pub mod referenda {
	use crate::sprt::Perbill;
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub enum Curve {
		LinearDecreasing { length: Perbill, floor: Perbill, ceil: Perbill },
	}
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub struct TrackInfo<Balance, Moment> {
		pub name: [u8; 25],
		pub max_deciding: u32,
		pub decision_deposit: Balance,
		pub prepare_period: Moment,
		pub decision_period: Moment,
		pub confirm_period: Moment,
		pub min_enactment_period: Moment,
		pub min_approval: Curve,
		pub min_support: Curve,
	}
	pub trait TracksInfo<Balance, Moment> {}
}
pub mod tracks {
	use crate::{referenda::TrackInfo, support::*};
	pub trait MutateTracks<Balance, Moment> {
		type Id;
		type RuntimeOrigin;
		fn insert(id: Self::Id, info: TrackInfo<Balance, Moment>, origin: Self::RuntimeOrigin) -> Result<(), DispatchError>;
	}
}
pub mod nfts {
	#[derive(Clone, PartialEq, Eq, Debug, Default)]
	pub struct CollectionSettings;
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct MintSettings<Price, Block, Collection>(pub Option<(Price, Block, Collection)>);
	impl<P, B, C> Default for MintSettings<P, B, C> {
		fn default() -> Self {
			MintSettings(None)
		}
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct CollectionConfig<Price, Block, Collection> {
		pub settings: CollectionSettings,
		pub max_supply: Option<u32>,
		pub mint_settings: MintSettings<Price, Block, Collection>,
	}
}

pub mod xcm {
	pub mod latest {
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub enum BodyId {
			Unit,
			Moniker([u8; 4]),
			Index(u32),
			Executive,
			Technical,
			Legislative,
			Judicial,
			Defense,
			Administration,
			Treasury,
		}
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub enum BodyPart {
			Voice,
			Members { count: u32 },
			Fraction { nom: u32, denom: u32 },
			AtLeastProportion { nom: u32, denom: u32 },
			MoreThanProportion { nom: u32, denom: u32 },
		}
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub enum Junction {
			Parachain(u32),
			AccountId32 { id: [u8; 32] },
			PalletInstance(u8),
			GeneralIndex(u128),
			Plurality { id: BodyId, part: BodyPart },
		}
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub struct Location {
			pub parents: u8,
			pub interior: Vec<Junction>,
		}
		impl From<Junction> for Location {
			fn from(j: Junction) -> Self {
				Location { parents: 0, interior: vec![j] }
			}
		}
	}
}
