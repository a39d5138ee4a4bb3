#!/bin/bash
# Runs in /repo after the build. Exit 0: the behaviour is right; nonzero: it is not.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D"/src/*.rs "$T/src/"; cp "$D/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<C
[package]
name = "spdmmon"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
hashed = ["spdmlib/hashed-transcript-data"]
mutauth = ["spdmlib/mut-auth"]
[dependencies]
spdmlib = { path = "$R/spdmlib", default-features = false }
codec = { path = "$R/codec" }
mctp_transport = { path = "$R/mctp_transport", default-features = false }
pcidoe_transport = { path = "$R/pcidoe_transport", default-features = false }
[profile.release]
opt-level = 1
overflow-checks = true
C
H=${RUSTUP_HOME:-/root/.rustup}; P=$H/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH RUSTUP_HOME=$H CARGO_HOME=${CARGO_HOME:-/root/.cargo}
export RUSTUP_TOOLCHAIN=nightly-2023-06-20 RUSTC=$P/rustc RUSTDOC=$P/rustdoc RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER= CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS SPDM_CONFIG CARGO_ENCODED_RUSTFLAGS
FEATURES=$(cat "$D/features" 2>/dev/null)
cd "$T" && cargo build --offline --release --features "$FEATURES" --target-dir "$T/t" > "$T/log" 2>&1 || { tail -30 "$T/log"; exit 99; }
timeout 120 "$T/t/release/spdmmon"
