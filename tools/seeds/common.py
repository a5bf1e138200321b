"""Planted defects in the shared library, with drivers that use only its public interface."""
DEMO = '''#!/bin/bash
# Builds the shared library's current source with a small driver and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
mkdir -p "$tmp/src"
cp "$here/driver.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOT
[package]
name = "driver"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
virto-common = { path = "$tmp/lib", features = [FEATURES] }
EXTRA
EOT
mkdir -p "$tmp/lib"
cat > "$tmp/lib/Cargo.toml" <<EOT
[package]
name = "virto-common"
version = "0.1.0"
edition = "2021"
[lib]
path = "$repo/common/src/lib.rs"
[dependencies]
bs58 = { version = "0.5.0", default-features = false }
LIBDEPS
[features]
std = ["bs58/std"]
alloc = []
nightly = []
js = []
runtime = []
EOT
[ -d "$here/stubs" ] && cp -r "$here/stubs" "$tmp/stubs"
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build -q --offline 2> "$tmp/log" || { cat "$tmp/log"; exit 3; }
"$tmp/target/debug/driver"
'''


def demo(runtime=False):
    feats = ['std', 'alloc', 'nightly'] + (['runtime'] if runtime else [])
    lib = ''
    extra = ''
    if runtime:
        lib = ('parity-scale-codec = { version = "3.6.4", features = ["derive", "max-encoded-len"] }\n'
               'scale-info = { version = "2.10.0", features = ["derive"] }\n'
               'serde = { version = "1", features = ["derive"] }\n'
               'frame-support = { path = "$tmp/stubs/frame-support" }\n'
               'sp-runtime = { path = "$tmp/stubs/sp-runtime" }\n'
               'xcm = { path = "$tmp/stubs/xcm" }\n')
        extra = ('parity-scale-codec = { version = "3.6.4", features = ["derive", "max-encoded-len"] }\n'
                 'scale-info = { version = "2.10.0", features = ["derive"] }\n'
                 'sp-runtime = { path = "$tmp/stubs/sp-runtime" }\n'
                 'xcm = { path = "$tmp/stubs/xcm" }\n')
    return (DEMO.replace('FEATURES', ', '.join('"%s"' % f for f in feats)).replace('LIBDEPS', lib).replace('EXTRA', extra))


def pkg(name, deps=''):
    return '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n%s' % (name, deps)


STUBS = {
    'stubs/frame-support/Cargo.toml': pkg('frame-support', 'parity-scale-codec = { version = "3.6.4", features = ["derive", "max-encoded-len"] }\nscale-info = { version = "2.10.0", features = ["derive"] }\n'),
    'stubs/frame-support/src/lib.rs': 'pub mod pallet_prelude {\n    pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};\n    pub use scale_info::TypeInfo;\n}\n',
    'stubs/sp-runtime/Cargo.toml': pkg('sp-runtime'),
    'stubs/sp-runtime/src/lib.rs': 'pub mod traits {\n    pub trait MaybeEquivalence<A, B> {\n        fn convert(a: &A) -> Option<B>;\n        fn convert_back(b: &B) -> Option<A>;\n    }\n}\n',
    'stubs/xcm/Cargo.toml': pkg('xcm'),
    'stubs/xcm/src/lib.rs': '''pub mod latest {
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum NetworkId {
        ByGenesis([u8; 32]),
        Polkadot,
        Kusama,
        Westend,
        Rococo,
        Ethereum { chain_id: u64 },
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Junction {
        Parachain(u32),
        PalletInstance(u8),
        GeneralIndex(u128),
        OnlyChild,
        GlobalConsensus(NetworkId),
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Location {
        pub parents: u8,
        pub interior: Vec<Junction>,
    }
    impl Location {
        pub fn new<const N: usize>(parents: u8, j: [Junction; N]) -> Self {
            Location { parents, interior: j.to_vec() }
        }
        pub fn unpack(&self) -> (u8, &[Junction]) {
            (self.parents, &self.interior)
        }
        pub fn parent_count(&self) -> u8 {
            self.parents
        }
    }
    pub mod prelude {
        pub use super::{Junction, Junction::*, Location, NetworkId};
    }
}
pub mod prelude {
    pub use super::latest::prelude::*;
}
''',
}
PID = 'common/src/payment_id.rs'
LOC = 'common/src/multilocation_asset_id.rs'


def seed(id, prop, path, old, new, needs, breaks, driver, runtime=False):
    files = {'demo.sh': demo(runtime), 'driver.rs': driver}
    if runtime:
        files.update(STUBS)
    return {'id': id, 'property': prop, 'edits': [(path, old, new)], 'needs': needs, 'breaks': breaks, 'files': files}


FORM = ('use parity_scale_codec::{Decode, Encode};\nuse virto_common::{AsFungibleAssetLocation as A, FungibleAssetLocation as F, NetworkId as N};\nuse sp_runtime::traits::MaybeEquivalence;\nuse xcm::latest::{Junction::*, Location, NetworkId};\nfn main() {\n'
        '    for (id, form) in [\n        (F::Here(7), vec![0, 7, 0, 0, 0]),\n        (F::External { network: N::Polkadot, child: None }, vec![2, 0, 0]),\n        (F::External { network: N::Kusama, child: None }, vec![2, 1, 0]),\n'
        '        (F::External { network: N::Ethereum { chain_id: 1 }, child: None }, vec![2, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0]),\n'
        '        (A::convert(&Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(1984)])).unwrap(), vec![1, 0xe8, 3, 50, 0xc0, 7, 0, 0]),\n'
        '        (A::convert(&Location::new(2, [GlobalConsensus(NetworkId::Polkadot), Parachain(1000), PalletInstance(50), GeneralIndex(1337)])).unwrap(), vec![2, 0, 1, 0xe8, 3, 50, 0x39, 5, 0, 0]),\n'
        '    ] {\n        assert_eq!(id.encode(), form);\n        assert_eq!(F::decode(&mut &form[..]).unwrap(), id);\n    }\n}\n')

SEEDS = [
    seed('c01-sign', 'C01', PID,
         'u64::from_le_bytes(id.as_ref().try_into().expect("fits in u64"))',
         'let low = u16::from_le_bytes(id.prefix) as u64;\n\t\tlow | ((id.index as i16 as u64) << 16) | ((id.block as u64) << 32)',
         'an id whose extrinsic index is 32768 or more while its block is not all ones',
         'the 64-bit number of the id gets its upper half set by sign extension',
         'use virto_common::PaymentId;\nfn main() {\n    for n in [0u64, 1, 0x0000_0001_7fff_0000, 0x0012_d687_0005_0502, u64::MAX, 0x0000_0007_8000_0102, 0x1234_5678_9abc_def0] {\n'
         '        let id: PaymentId = n.into();\n        let back: u64 = id.into();\n        assert_eq!(n, back);\n        assert_eq!(AsRef::<[u8]>::as_ref(&id), &n.to_le_bytes()[..]);\n    }\n}\n'),
    seed('c02-index', 'C02', PID, '\t\tself.index as u32\n', '\t\tself.index as i16 as u32\n',
         'a payment made in an extrinsic with index 32768 or higher', 'the reported extrinsic index is sign-extended',
         'use virto_common::PaymentId;\nfn main() {\n    for (b, i) in [(0u32, 0u32), (7, 5), (u32::MAX, 32767), (9, 32768), (1, 65535)] {\n'
         '        let id: PaymentId = (b, i, &[3u8, 4, 5][..]).into();\n        assert_eq!((id.block_number(), id.extrinsic_index()), (b, i));\n    }\n}\n'),
    seed('c02-extra', 'C02', PID, 'prefix: extra[..2].try_into().expect("at least 2 bytes"),', 'prefix: [extra[0], extra[extra.len() - 1]],',
         'two beneficiaries that differ in their second byte only, paid in the same extrinsic with longer extra data',
         'ids for different extra bytes collide because the last byte is taken instead of the second',
         'use virto_common::PaymentId;\nfn main() {\n    let a: PaymentId = (1, 2, &[9u8, 1, 7, 7][..]).into();\n    let b: PaymentId = (1, 2, &[9u8, 2, 7, 7][..]).into();\n'
         '    assert!(a != b);\n    let c: PaymentId = (1, 2, &[8u8, 1, 7, 7][..]).into();\n    assert!(a != c);\n}\n'),
    seed('c03-dash', 'C03', PID, '\t\tif f.alternate() {\n', '\t\tif f.alternate() && out.len() > 9 {\n',
         'an id whose text form has fewer than ten characters', 'the dashed form of short ids has no dash',
         'use virto_common::PaymentId;\nfn main() {\n    for n in [u64::MAX, 1 << 63, 255, 0xff00, 0x0100_0000_0000_0000, 0] {\n        let id: PaymentId = n.into();\n'
         '        let (p, d) = (format!("{id}"), format!("{id:#}"));\n        assert_eq!(d, format!("{}-{}", &p[..5], &p[5..]));\n'
         '        assert_eq!(p.parse(), Ok(id));\n        assert_eq!(d.parse(), Ok(id));\n        assert_eq!(id.encode(true), d);\n        assert_eq!(id.encode(false), p);\n    }\n}\n'),
    seed('c04-trim', 'C04', PID, '\t\tlet mut input = s;\n', '\t\tlet mut input = s.trim_end();\n',
         'a text without a dash followed by white space', 'text that is not the printed form of an id is accepted',
         'use virto_common::PaymentId;\nuse std::panic::catch_unwind;\nfn main() {\n    let id = "LbNvS-NtVQs".parse::<PaymentId>().unwrap();\n    assert_eq!("LbNvSNtVQs".parse(), Ok(id));\n'
         '    for t in ["LbNvSNtVQs ", " LbNvSNtVQs", "LbNvSNtVQs\\n", "LbNvS--NtVQs", "LbNvSNtVQ", "LbNvSNtVQsLbNvSNtVQs", "LbNvS-NtVQsLbNvSNtVQs", "", "-", "0", "ł-ł", "aaaaaaaaaa-ł", "LbNvS-NtVQs "] {\n'
         '        assert_eq!(catch_unwind(|| t.parse::<PaymentId>().ok()).unwrap(), None, "{t:?}");\n        assert_eq!(PaymentId::new(t), PaymentId::default());\n    }\n}\n'),
    seed('c04-chars', 'C04', PID, 'let len_without_sep = p1.len() + p2.len();', 'let len_without_sep = p1.len() + p2.chars().count();',
         'a dashed text with a character outside ASCII after the dash', 'parsing such text panics instead of failing',
         'use virto_common::PaymentId;\nuse std::panic::catch_unwind;\nfn main() {\n    for t in ["LbNvS-NtVQs", "ab-cd", "LbNvS-NtVQé", "é-é", "-é", "é-", "aaaaaaaaaaaaa-"] {\n'
         '        assert!(catch_unwind(|| t.parse::<PaymentId>()).is_ok(), "{t:?}");\n    }\n    assert!("LbNvS-NtVQs".parse::<PaymentId>().is_ok());\n}\n'),
    seed('c05-short', 'C05', PID, '\t\t\tinput.read(&mut buf)?;\n', '\t\t\tif let Some(n) = input.remaining_len()? {\n\t\t\t\tlet n = n.min(buf.len());\n\t\t\t\tinput.read(&mut buf[..n])?;\n\t\t\t}\n',
         'an encoded id cut short by the end of the input', 'a truncated encoding decodes to an id',
         'use parity_scale_codec::{Decode, Encode, MaxEncodedLen};\nuse virto_common::PaymentId;\nfn main() {\n    for n in [0u64, 1, u64::MAX, 0x1234_5678_9abc_def0] {\n'
         '        let id: PaymentId = n.into();\n        let e = Encode::encode(&id);\n        assert_eq!(e, n.to_le_bytes());\n        let mut long = e.clone();\n        long.extend([1, 2, 3]);\n'
         '        let mut input = &long[..];\n        assert_eq!(PaymentId::decode(&mut input).unwrap(), id);\n        assert_eq!(input, &[1, 2, 3]);\n        for k in 0..8 {\n            assert!(PaymentId::decode(&mut &e[..k]).is_err());\n        }\n'
         '        assert_eq!(PaymentId::max_encoded_len(), 8);\n        assert_eq!(id.size_hint(), 8);\n    }\n}\n', True),
    seed('c06-child', 'C06', LOC, 'FungibleAssetLocation::External { network, child: None } => {\n\t\t\t\t\tSome(Location::new(2, [GlobalConsensus(network.into())]))',
         'FungibleAssetLocation::External { network, child: None } => {\n\t\t\t\t\tlet parents = if network == super::NetworkId::Kusama { 1 } else { 2 };\n\t\t\t\t\tSome(Location::new(parents, [GlobalConsensus(network.into())]))',
         'the native asset of the Kusama consensus system', 'its location is given with one parent and cannot be read back',
         'use virto_common::{AsFungibleAssetLocation as A, FungibleAssetLocation as F, NetworkId as N};\nuse sp_runtime::traits::MaybeEquivalence;\nuse xcm::latest::{Junction::*, Location, NetworkId};\nfn main() {\n'
         '    for network in [N::Polkadot, N::Kusama, N::Ethereum { chain_id: 1 }] {\n        let id = F::External { network, child: None };\n        let loc = A::convert_back(&id).unwrap();\n        assert_eq!(A::convert(&loc), Some(id));\n    }\n'
         '    for loc in [Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(1984)]), Location::new(0, [PalletInstance(13), GeneralIndex(7)]), Location::new(2, [GlobalConsensus(NetworkId::Polkadot), Parachain(1000), PalletInstance(50), GeneralIndex(1337)])] {\n'
         '        let id = A::convert(&loc).unwrap();\n        assert_eq!(A::convert_back(&id), Some(loc));\n    }\n}\n', True),
    seed('c07-cut', 'C07', LOC,
         '\t\t\t\t\tSome(FungibleAssetLocation::Sibling(Para {\n\t\t\t\t\t\tid: (*id).try_into().ok()?,\n\t\t\t\t\t\tpallet: *pallet,\n\t\t\t\t\t\tindex: (*index).try_into().ok()?,',
         '\t\t\t\t\tSome(FungibleAssetLocation::Sibling(Para {\n\t\t\t\t\t\tid: *id as u16,\n\t\t\t\t\t\tpallet: *pallet,\n\t\t\t\t\t\tindex: (*index).try_into().ok()?,',
         'a sibling location with a parachain number above 65535', 'the parachain number is cut to 16 bits and another chain\'s asset is meant',
         'use virto_common::AsFungibleAssetLocation as A;\nuse sp_runtime::traits::MaybeEquivalence;\nuse xcm::latest::{Junction::*, Location};\nfn main() {\n'
         '    assert!(A::convert(&Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(1)])).is_some());\n'
         '    assert!(A::convert(&Location::new(1, [Parachain(65536 + 1000), PalletInstance(50), GeneralIndex(1)])).is_none());\n'
         '    assert!(A::convert(&Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(1 << 40)])).is_none());\n'
         '    assert!(A::convert(&Location::new(0, [PalletInstance(13), GeneralIndex(1 << 40)])).is_none());\n}\n', True),
    seed('c09-sign', 'C09', LOC, '\t\tFungibleAssetLocation::Here(value)\n', '\t\tFungibleAssetLocation::Here((value as i32).unsigned_abs())\n',
         'an asset number in the upper half of the range', 'the number denotes the asset of another number',
         'use virto_common::{AsFungibleAssetLocation as A, FungibleAssetLocation as F};\nuse sp_runtime::traits::MaybeEquivalence;\nuse xcm::latest::{Junction::*, Location};\nfn main() {\n'
         '    for n in [0u32, 1, 7, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX] {\n        assert_eq!(F::from(n), F::Here(n));\n'
         '        assert_eq!(A::convert_back(&F::from(n)), Some(Location::new(0, [PalletInstance(13), GeneralIndex(n as u128)])));\n    }\n    assert_eq!(F::default(), F::from(0));\n}\n', True),
    seed('c10-nets', 'C10', LOC, '\tPolkadot,\n\tKusama,\n\tEthereum', '\tKusama,\n\tPolkadot,\n\tEthereum',
         'an identifier of an external asset that is already in storage', 'stored identifiers of Polkadot assets are read as Kusama assets',
         FORM, True),
    seed('c10-wide', 'C10', LOC, '\tindex: u32,\n}', '\t#[cfg_attr(feature = "runtime", codec(compact))]\n\tindex: u32,\n}',
         'an identifier of an asset of another chain that is already in storage', 'the asset number is read in another width than it was stored in',
         FORM, True),
]
