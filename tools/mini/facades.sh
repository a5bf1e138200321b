# Writes the stand-in crates into $1 and a package for the pallet sources of $2.
set -e
dst="$1"; repo="$2"
facade() { # crate module extra-line
	mkdir -p "$dst/$1/src"
	printf '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[features]\nstd = []\n[dependencies]\nmini = { path = "../mini" }\n' "$1" > "$dst/$1/Cargo.toml"
	printf 'pub use mini::%s::*;\n%s\n' "$2" "$3" > "$dst/$1/src/lib.rs"
}
facade frame-support support 'pub use mini::{ensure, fail};'
facade frame-system system
facade sp-runtime sprt 'pub use mini::morph_types;'
facade sp-io io
facade sp-std stdlib
facade fc-traits-memberships memberships
facade fc-traits-tracks tracks
facade pallet-referenda referenda
facade pallet-nfts nfts
facade xcm xcm
pallet() { # name folder
	mkdir -p "$dst/$1"
	cat > "$dst/$1/Cargo.toml" <<EOT
[package]
name = "$1"
version = "0.1.0"
edition = "2021"
[lib]
path = "$repo/pallets/$2/src/lib.rs"
[features]
default = ["std", "xcm"]
std = []
runtime-benchmarks = []
[dependencies]
frame-support = { path = "../frame-support" }
frame-system = { path = "../frame-system" }
sp-runtime = { path = "../sp-runtime" }
sp-io = { path = "../sp-io" }
sp-std = { path = "../sp-std" }
fc-traits-memberships = { path = "../fc-traits-memberships" }
xcm = { path = "../xcm", optional = true }
$3
parity-scale-codec = { version = "3.6.4", features = ["derive", "max-encoded-len"] }
scale-info = { version = "2.10.0", features = ["derive"] }
EOT
}
pallet pallet-payments payments
pallet pallet-communities communities
pallet pallet-communities-manager communities-manager 'fc-traits-tracks = { path = "../fc-traits-tracks" }
pallet-referenda = { path = "../pallet-referenda" }
pallet-nfts = { path = "../pallet-nfts" }
pallet-communities = { path = "../pallet-communities" }'
