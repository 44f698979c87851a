export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${SIM_TARGET_DIR:-/verif/target} RUSTFLAGS="--cfg oraiswap_sim"
