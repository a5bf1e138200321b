"""Planted bugs in the runtime; the demonstrations compile its files against small stand-ins."""
IMPL, PAY = 'runtime/kreivo/src/impls.rs', 'runtime/kreivo/src/payments.rs'

DEMO = r'''#!/bin/bash
# Compiles the file of the current tree against small stand-ins and runs the scenario; fails when the scenario fails.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/driver/src"
cp "$here/main.rs" "$tmp/driver/src/main.rs"
cp "$repo/FILE" "$tmp/driver/src/under_test.rs"
cat > "$tmp/driver/Cargo.toml" <<EOT
[package]
name = "driver"
version = "0.1.0"
edition = "2021"
[features]
runtime-benchmarks = []
[workspace]
[dependencies]
parity-scale-codec = { version = "3.6.4", features = ["derive", "max-encoded-len"] }
scale-info = { version = "2.10.0", features = ["derive"] }
DEPS
EOT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cargo run --offline -q --manifest-path "$tmp/driver/Cargo.toml"
'''

IMPLS_MAIN = r'''#![allow(dead_code, unused_imports, non_camel_case_types)]
pub mod frame_support {
    pub mod traits {
        pub trait Contains<T> {
            fn contains(t: &T) -> bool;
        }
        pub trait Currency<A> {
            type NegativeImbalance;
        }
        pub trait InstanceFilter<C> {
            fn filter(&self, c: &C) -> bool;
            fn is_superset(&self, o: &Self) -> bool;
        }
        pub trait PrivilegeCmp<O> {
            fn cmp_privilege(l: &O, r: &O) -> Option<core::cmp::Ordering>;
        }
    }
}
pub mod frame_system {
    pub trait Config {
        type AccountId;
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum RawOrigin {
        Root,
        Signed(u64),
        None,
    }
}
pub mod sp_runtime {
    pub use core::fmt::Debug as RuntimeDebug;
}
pub mod pallet_balances {
    pub struct Pallet<T>(T);
    impl<T: crate::frame_system::Config> crate::frame_support::traits::Currency<T::AccountId> for Pallet<T> {
        type NegativeImbalance = ();
    }
}
pub mod pallet_proxy {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Call {
        proxy { real: u64 },
        add_proxy { delegate: u64 },
        reject_announcement { delegate: u64 },
    }
}
pub mod pallet_assets {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Call {
        create { id: u32 },
        start_destroy { id: u32 },
        destroy_accounts { id: u32 },
        destroy_approvals { id: u32 },
        finish_destroy { id: u32 },
        transfer_ownership { id: u32 },
        set_team { id: u32 },
        set_metadata { id: u32 },
        clear_metadata { id: u32 },
        mint { id: u32 },
        burn { id: u32 },
        transfer { id: u32 },
        freeze { id: u32 },
        thaw { id: u32 },
        freeze_asset { id: u32 },
        thaw_asset { id: u32 },
        touch { id: u32 },
    }
}
pub type KreivoAssetsCall = pallet_assets::Call;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RuntimeCall {
    System(u8),
    Balances(u8),
    Treasury(u8),
    Utility(u8),
    Multisig(u8),
    Assets(KreivoAssetsCall),
    Proxy(pallet_proxy::Call),
    CollatorSelection(u8),
    Payments(u8),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OriginCaller {
    system(frame_system::RawOrigin),
    Communities(u16),
    Void,
}
#[path = "under_test.rs"]
mod impls;
use core::cmp::Ordering;
use frame_support::traits::{InstanceFilter, PrivilegeCmp};
use frame_system::RawOrigin;
use impls::*;
use ProxyType::*;

fn calls() -> Vec<RuntimeCall> {
    use pallet_assets::Call::*;
    let id = 1;
    let mut all: Vec<_> = [
        create { id }, start_destroy { id }, destroy_accounts { id }, destroy_approvals { id }, finish_destroy { id },
        transfer_ownership { id }, set_team { id }, set_metadata { id }, clear_metadata { id }, mint { id }, burn { id },
        transfer { id }, freeze { id }, thaw { id }, freeze_asset { id }, thaw_asset { id }, touch { id },
    ].into_iter().map(RuntimeCall::Assets).collect();
    all.push(RuntimeCall::Proxy(pallet_proxy::Call::proxy { real: 1 }));
    all.push(RuntimeCall::Proxy(pallet_proxy::Call::add_proxy { delegate: 1 }));
    all.push(RuntimeCall::Proxy(pallet_proxy::Call::reject_announcement { delegate: 1 }));
    all.extend([RuntimeCall::System(0), RuntimeCall::Balances(0), RuntimeCall::Treasury(0), RuntimeCall::Utility(0),
        RuntimeCall::Multisig(0), RuntimeCall::CollatorSelection(0), RuntimeCall::Payments(0)]);
    all
}

fn main() {
SCENARIO}
'''

PAY_MAIN = r'''#![allow(dead_code, unused_imports, non_upper_case_globals)]
pub use std::vec;
#[derive(Clone, Copy, Debug, PartialEq, Eq, parity_scale_codec::Encode)]
pub struct AccountId(pub [u8; 32]);
pub type Balance = u128;
pub type CommunityId = u16;
pub type FungibleAssetLocation = u32;
pub type AssetIdOf<T> = <T as WithAsset>::Id;
pub trait WithAsset {
    type Id;
}
impl WithAsset for Runtime {
    type Id = u32;
}
pub struct Runtime;
pub struct RuntimeEvent;
pub struct RuntimeHoldReason;
pub struct RuntimeCall;
pub struct OriginCaller;
pub struct Scheduler;
pub struct Preimage;
pub const MILLISECS_PER_BLOCK: u64 = 6_000;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Percent(u8);
impl Percent {
    pub const fn from_percent(x: u8) -> Self {
        Percent(x)
    }
    pub fn mul_floor(self, x: Balance) -> Balance {
        x / 100 * self.0 as Balance + x % 100 * self.0 as Balance / 100
    }
    pub fn mul_ceil(self, x: Balance) -> Balance {
        x - Percent(100 - self.0).mul_floor(x)
    }
}
impl core::ops::Mul<Balance> for Percent {
    type Output = Balance;
    fn mul(self, x: Balance) -> Balance {
        x / 100 * self.0 as Balance + (x % 100 * self.0 as Balance + 49) / 100
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PalletId(pub [u8; 8]);
pub mod sp_runtime {
    pub mod traits {
        use crate::*;
        pub trait AccountIdConversion {
            fn try_from_sub_account<S: SubId>(a: &AccountId) -> Option<(PalletId, S)>;
            fn into_account_truncating(&self) -> AccountId;
        }
        pub trait SubId: Sized {
            fn read(b: &[u8]) -> Option<Self>;
        }
        impl SubId for u16 {
            fn read(b: &[u8]) -> Option<Self> {
                b[2..].iter().all(|x| *x == 0).then(|| u16::from_le_bytes([b[0], b[1]]))
            }
        }
        impl AccountIdConversion for PalletId {
            fn try_from_sub_account<S: SubId>(a: &AccountId) -> Option<(PalletId, S)> {
                if &a.0[..4] != b"modl" {
                    return None;
                }
                let mut id = [0; 8];
                id.copy_from_slice(&a.0[4..12]);
                S::read(&a.0[12..]).map(|s| (PalletId(id), s))
            }
            fn into_account_truncating(&self) -> AccountId {
                account(&self.0, 0)
            }
        }
    }
}
pub fn account(pallet: &[u8; 8], sub: u16) -> AccountId {
    let mut a = [0; 32];
    a[..4].copy_from_slice(b"modl");
    a[4..12].copy_from_slice(pallet);
    a[12..14].copy_from_slice(&sub.to_le_bytes());
    AccountId(a)
}
macro_rules! parameter_types {
    ($($(#[$m:meta])* $v:vis const $n:ident: $t:ty = $e:expr;)*) => {
        $($(#[$m])* $v struct $n; impl $n { pub fn get() -> $t { $e } })*
    };
}
pub(crate) use parameter_types;
pub struct ConstU32<const N: u32>;
pub struct TreasuryAccount;
impl TreasuryAccount {
    pub fn get() -> AccountId {
        account(b"kreivo/t", 0)
    }
}
pub mod communities {
    pub struct CommunityPalletId;
    impl CommunityPalletId {
        pub fn get() -> crate::PalletId {
            crate::PalletId(*b"kv/cmtys")
        }
    }
}
pub mod weights {
    pub mod pallet_payments {
        pub struct WeightInfo<T>(T);
    }
}
pub mod frame_support {
    pub mod traits {
        pub struct EitherOf<A, B>(A, B);
    }
}
pub mod frame_system {
    pub struct EnsureSigned<A>(A);
    pub struct EnsureRootWithSuccess<A, B>(A, B);
}
pub mod pallet_communities {
    pub mod origin {
        pub struct AsSignedByCommunity<T>(T);
    }
}
pub mod fungibles {
    pub trait Inspect<A> {
        fn minimum_balance(asset: u32) -> u128;
    }
}
pub struct Assets;
impl fungibles::Inspect<AccountId> for Assets {
    fn minimum_balance(asset: u32) -> u128 {
        asset as u128
    }
}
thread_local! { pub static INDEX: core::cell::Cell<Option<u32>> = core::cell::Cell::new(Some(3)); }
pub struct System;
impl System {
    pub fn block_number() -> u32 {
        1_000
    }
    pub fn extrinsic_index() -> Option<u32> {
        INDEX.with(|i| i.get())
    }
}
#[derive(Debug)]
pub struct BoundedVec<T>(pub Vec<T>);
impl<T> TryFrom<Vec<T>> for BoundedVec<T> {
    type Error = core::fmt::Error;
    fn try_from(v: Vec<T>) -> Result<Self, core::fmt::Error> {
        Ok(BoundedVec(v))
    }
}
impl<T> Default for BoundedVec<T> {
    fn default() -> Self {
        BoundedVec(Vec::new())
    }
}
pub struct Fees<T: Bool> {
    pub sender_pays: BoundedVec<(AccountId, Balance, bool)>,
    pub beneficiary_pays: BoundedVec<(AccountId, Balance, <T as Bool>::B)>,
}
pub trait Bool {
    type B;
}
impl Bool for Runtime {
    type B = bool;
}
pub trait FeeHandler<T: Bool> {
    fn apply_fees(asset: &u32, sender: &AccountId, beneficiary: &AccountId, amount: &Balance, remark: Option<&[u8]>) -> Fees<T>;
}
pub mod pallet_payments {
    pub trait PaymentId<T>: Sized {
        fn next(sender: &crate::AccountId, beneficiary: &crate::AccountId) -> Option<Self>;
    }
    pub trait Config {
        type RuntimeEvent;
        type Assets;
        type AssetsBalance;
        type PaymentId;
        type FeeHandler;
        type IncentivePercentage;
        type MaxRemarkLength;
        type SenderOrigin;
        type BeneficiaryOrigin;
        type DisputeResolver;
        type PalletId;
        type RuntimeHoldReason;
        type MaxDiscounts;
        type MaxFees;
        type RuntimeCall;
        type Scheduler;
        type Preimages;
        type CancelBufferBlockLength;
        type PalletsOrigin;
        type WeightInfo;
    }
}
// the identifier as the library makes it: all that matters here is what it is made from
pub mod virto_common {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PaymentId(pub u32, pub u32, pub [u8; 2]);
    impl From<(u32, u32, &[u8])> for PaymentId {
        fn from((b, i, x): (u32, u32, &[u8])) -> Self {
            PaymentId(b, i, [x[0], x[1]])
        }
    }
}
#[path = "under_test.rs"]
mod payments;
use payments::*;

fn fees(asset: u32, sender: AccountId, beneficiary: AccountId, amount: Balance) -> (Vec<(AccountId, Balance, bool)>, Vec<(AccountId, Balance, bool)>) {
    let f = <KreivoFeeHandler as FeeHandler<Runtime>>::apply_fees(&asset, &sender, &beneficiary, &amount, None);
    (f.sender_pays.0, f.beneficiary_pays.0)
}

fn main() {
SCENARIO}
'''


def seed(id, prop, edits, needs, breaks, scenario):
    main = IMPLS_MAIN if edits[0][0] == IMPL else PAY_MAIN
    return {'id': id, 'property': prop, 'edits': edits, 'needs': needs, 'breaks': breaks,
            'files': {'demo.sh': DEMO.replace('FILE', edits[0][0]).replace('DEPS\n', ''), 'main.rs': main.replace('SCENARIO', scenario)}}


KINDS = '''    let kinds = [Any, NonTransfer, CancelProxy, Assets, AssetOwner, AssetManager, Collator];
    for a in kinds {
        for b in kinds {
            let covers = calls().iter().all(|c| !b.filter(c) || a.filter(c));
            assert!(!a.is_superset(&b) || covers, "{a:?} is said to include {b:?}");
        }
    }
    assert!(calls().iter().all(|c| Any.filter(c)));
    assert!(!calls().iter().any(|c| matches!(c, RuntimeCall::Balances(_) | RuntimeCall::Assets(_)) && NonTransfer.filter(c)));
    for c in calls() {
        let wrap = matches!(c, RuntimeCall::Utility(_) | RuntimeCall::Multisig(_));
        let assets = matches!(c, RuntimeCall::Assets(_));
        use pallet_assets::Call as A;
        let manager = matches!(c, RuntimeCall::Assets(A::mint { .. } | A::burn { .. } | A::freeze { .. } | A::thaw { .. } | A::freeze_asset { .. } | A::thaw_asset { .. }));
        let owner = assets && !manager && !matches!(c, RuntimeCall::Assets(A::transfer { .. } | A::touch { .. }));
        assert_eq!(Assets.filter(&c), wrap || assets, "assets proxy: {c:?}");
        assert_eq!(AssetManager.filter(&c), wrap || manager, "asset manager: {c:?}");
        assert_eq!(AssetOwner.filter(&c), wrap || owner, "asset owner: {c:?}");
        assert_eq!(Collator.filter(&c), wrap || matches!(c, RuntimeCall::CollatorSelection(_)), "collator proxy: {c:?}");
        assert_eq!(CancelProxy.filter(&c), wrap || matches!(c, RuntimeCall::Proxy(pallet_proxy::Call::reject_announcement { .. })), "cancel proxy: {c:?}");
    }
'''
PRIV = '''    let all = [OriginCaller::system(RawOrigin::Root), OriginCaller::system(RawOrigin::Signed(1)), OriginCaller::system(RawOrigin::Signed(2)),
        OriginCaller::system(RawOrigin::None), OriginCaller::Communities(1), OriginCaller::Communities(2), OriginCaller::Void];
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            let want = if i == j { Some(Ordering::Equal) } else if i == 0 { Some(Ordering::Greater) } else { None };
            assert_eq!(EqualOrGreatestRootCmp::cmp_privilege(a, b), want, "{a:?} against {b:?}");
        }
    }
'''
FEES = '''    let (a, b) = (AccountId([7; 32]), AccountId([8; 32]));
    let community = account(b"kv/cmtys", 5);
    let other = account(b"payments", 5);
    let t = TreasuryAccount::get();
    for (asset, amount) in [(1, 10_000), (1, 10_099), (1, 10_080), (500, 10_000), (1, 60), (0, 0)] {
        let (s, r) = (vec![(t, (amount / 100).max(asset as u128), true)], vec![(t, (amount * 3 / 100).max(asset as u128), true)]);
        assert_eq!(fees(asset, a, b, amount), (s.clone(), r.clone()));
        assert_eq!(fees(asset, community, b, amount), (vec![], r.clone()));
        assert_eq!(fees(asset, a, community, amount), (s.clone(), vec![]));
        assert_eq!(fees(asset, community, community, amount), (vec![], vec![]));
        assert_eq!(fees(asset, other, b, amount), (s, r));
    }
'''
NEXT = '''    use pallet_payments::PaymentId;
    let mut who = [9; 32];
    who[..2].copy_from_slice(&[1, 2]);
    let next = || <virto_common::PaymentId as PaymentId<Runtime>>::next(&AccountId([7; 32]), &AccountId(who));
    assert_eq!(next(), Some(virto_common::PaymentId(1_000, 3, [1, 2])));
    INDEX.with(|i| i.set(Some(0)));
    assert_eq!(next(), Some(virto_common::PaymentId(1_000, 0, [1, 2])));
    INDEX.with(|i| i.set(None));
    assert_eq!(next(), None);
'''

SEEDS = [
    seed('r03-collator', 'R03', [(IMPL, '			(ProxyType::NonTransfer, ProxyType::Collator) => true,\n', '			(ProxyType::NonTransfer, ProxyType::Collator | ProxyType::AssetManager) => true,\n')],
         'a proxy without transfers changing the proxies of the account to one of the asset manager kind', 'a kind is taken to include another that permits calls it does not', KINDS),
    seed('r03-burn', 'R03', [(IMPL, '				RuntimeCall::Assets(KreivoAssetsCall::mint { .. })\n', '				RuntimeCall::Assets(KreivoAssetsCall::mint { .. } | KreivoAssetsCall::transfer { .. })\n')],
         'an asset manager proxy making a transfer', 'a proxy for managing an asset can move it', KINDS),
    seed('r05-none', 'R05', [(IMPL, '			(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),\n',
                              '			(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),\n			(_, OriginCaller::system(frame_system::RawOrigin::None)) => Some(Ordering::Greater),\n')],
         'work scheduled by no origin', 'any origin may cancel work scheduled without one', PRIV),
    seed('r09-any', 'R09', [(PAY, 'Some((pid, _)) if pallet_id == pid )', 'Some(_) if pallet_id != PaymentPalletId::get() )')],
         'a sub-account of another pallet on one side of a payment', 'accounts of other pallets pay no fees', FEES),
    seed('r09-near', 'R09', [(PAY, 'fee.mul_floor(*amount)', 'fee * *amount')],
         'an amount of which the fee is a fraction closer to the next unit', 'the fee is rounded to the nearest unit instead of down', FEES),
    seed('r10-first', 'R10', [(PAY, 'let idx = System::extrinsic_index()?;', 'let idx = System::extrinsic_index().unwrap_or_default();')],
         'a payment made outside of an extrinsic, such as by the scheduler', 'the identifier of the first extrinsic is issued outside of any', NEXT),
]
