#!/bin/bash
# run with cwd = the repository: builds main.rs against it in a scratch directory and runs it
H="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
D="$(mktemp -d)"
trap 'rm -rf "${D:?}"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$D/target"
unset RUSTFLAGS CARGO_BUILD_TARGET
python3 "$H/mkws.py" "$R" "$D/ws" "$H/repo.Cargo.lock" || exit 3
mkdir -p "$D/demo/src"
cp "$H/main.rs" "$D/demo/src/main.rs"
cp "$H/repo.Cargo.lock" "$D/demo/Cargo.lock"
cat > "$D/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
algebra = { path = "../ws/algebra", default-features = false }
lattice = { path = "../ws/lattice", default-features = false }
fhe_core = { path = "../ws/fhe_core", default-features = false }
zkfhe = { path = "../ws/bool", default-features = false }
rand = "0.8"
num-traits = "0.2"
[profile.dev]
debug = 0
opt-level = 1
T
cd "$D/demo" && cargo +stable build --offline -q 2> "$D/err" || { tail -40 "$D/err"; exit 4; }
timeout 200 "$D/target/debug/demo"
