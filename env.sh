export PATH=/usr/local/bin:/root/.cargo/bin:${PATH:-/usr/bin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
