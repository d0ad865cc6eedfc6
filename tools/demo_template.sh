#!/bin/bash
# run with cwd = the repository, after its build; exit 0: the property holds for the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
unset RUSTFLAGS
work=$(mktemp -d)
trap 'rm -r -- "$work"' EXIT
mkdir -p "$work/src" "$work/tmp"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
vpin = { path = "$repo" }
rand = "0.10.0"
serde_json = { version = "1.0.145", features = ["preserve_order"] }
tracing-subscriber = { version = "0.3", features = ["env-filter"] }
env_logger = "0.11"
dirs = "6.0.0"
pretty_assertions = "1.4.1"
walkdir = "2.5.0"
testresult = "0.4.1"
fake = { version = "5.1.0", features = ["derive"] }
testdir = "0.10.0"
cfb = "0.14.0"
flate2 = "1"
[profile.test]
opt-level = 1
[profile.test.package.vpin]
opt-level = 0
T
cd "$work" || exit 3
CARGO_TARGET_DIR="$repo/target" cargo build --profile test --offline -q 1>&2 || exit 3
TMPDIR="$work/tmp" timeout 120 "$repo/target/debug/demo"
