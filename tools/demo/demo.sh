#!/bin/bash
# run with cwd /repo: builds a small program against the contract in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$here/host.rs" "$t/src/"
cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
oraiswap-v3 = { path = "$repo/contracts/oraiswap-v3" }
oraiswap-v3-wasm = { path = "$repo/wasm" }
decimal = { path = "$repo/packages/decimal" }
cosmwasm-std = "=1.2"
cw20 = "1.0.1"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1"
wasm-bindgen = "=0.2.92"
[profile.dev]
debug = false
[lints.rust]
unexpected_cfgs = { level = "allow", check-cfg = [] }
X
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
export RUSTFLAGS="--cfg oraiswap_sim"
unset RUSTC_WRAPPER
cd "$t" && cargo build --offline > build.log 2>&1 || { tail -20 build.log; echo "the demonstration does not build"; exit 2; }
"$t/target/debug/demo"
