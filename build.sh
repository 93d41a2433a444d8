#!/bin/bash
# Build the simulator against /repo's current working tree. Offline; writes only below /verif/target.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# cargo compares modification times, which a checkout or an applied patch may not move forward
rm -rf "$PWD"/target/release/.fingerprint/financelib-* "$PWD"/target/release/.fingerprint/finsim-*
cargo build --release --offline --locked --manifest-path sim/Cargo.toml > target-build.log 2>&1 || { tail -40 target-build.log >&2; echo "finsim: the simulator does not build against /repo" >&2; exit 2; }
