#!/bin/bash
# mkdemo.sh DIR : writes demo.sh + Cargo.toml.in
D=$1
cat > $D/demo.sh <<'X'
#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it: 0 = the property held.
set -e
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
sed "s#@REPO@#$R#" "$D/Cargo.toml.in" > "$T/Cargo.toml"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo run --offline --quiet
X
cat > $D/Cargo.toml.in <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
binius_compute = { path = "@REPO@/crates/compute" }
binius_core = { path = "@REPO@/crates/core" }
binius_fast_compute = { path = "@REPO@/crates/fast_compute" }
binius_field = { path = "@REPO@/crates/field" }
binius_hal = { path = "@REPO@/crates/hal" }
binius_hash = { path = "@REPO@/crates/hash" }
binius_m3 = { path = "@REPO@/crates/m3", features = ["test_utils"] }
binius_macros = { path = "@REPO@/crates/macros" }
binius_math = { path = "@REPO@/crates/math" }
binius_maybe_rayon = { path = "@REPO@/crates/maybe_rayon" }
binius_ntt = { path = "@REPO@/crates/ntt" }
binius_utils = { path = "@REPO@/crates/utils" }
anyhow = "1.0.81"
bytes = "1.7.2"
bytemuck = "1.18.0"
digest = "0.10.7"
rand = { version = "0.9.1", default-features = false, features = ["std", "std_rng"] }
[profile.dev]
debug = 0
debug-assertions = false
overflow-checks = false
X
chmod +x $D/demo.sh
