# Sourced by every script that builds the harness: the toolchain /repo pins.
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup} CARGO_HOME=${CARGO_HOME:-/root/.cargo}
PINNED=$RUSTUP_HOME/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin
export RUSTUP_TOOLCHAIN=nightly-2023-06-20 RUSTC=$PINNED/rustc RUSTDOC=$PINNED/rustdoc
export RUSTC_WORKSPACE_WRAPPER= RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR SPDM_CONFIG CARGO_ENCODED_RUSTFLAGS
