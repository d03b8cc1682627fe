#!/bin/bash
# build.sh <harness|native>
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
unset CARGO_TARGET_DIR
cd "$(dirname "$0")/../$1" || exit 1
RUSTFLAGS="--cfg zkp_verif -Awarnings" cargo build --release --offline && exit 0
# the guarded access to private items no longer fits: do without it
f=shadow; [ "$1" = native ] && f=
echo "WITHOUT-HOOKS" >&2
RUSTFLAGS="-Awarnings" exec cargo build --release --offline --no-default-features --features "$f"
