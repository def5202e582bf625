#!/bin/bash
# builds the framework offline
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
(cd "$here/symx" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline) || exit 1
(cd "$here/symp" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline) || exit 1
(cd "$here/symb" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline) || exit 1
python3 "$here/kani/run.py" --prebuild
