#!/bin/bash
# builds the MIR dump driver (offline); checks call it too, it is a no-op when up to date
cd "$(dirname "$0")/driver" || exit 2
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER=
exec 9>/tmp/.mirdump.lock 2>/dev/null
flock 9 2>/dev/null
exec cargo build --offline --release -q
