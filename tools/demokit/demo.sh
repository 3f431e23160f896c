#!/bin/bash
# Builds the small program beside this script against /repo (real LLVM backend) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=${DEMO_TARGET:-$(mktemp -d)}
[ -n "$DEMO_TARGET" ] || trap 'rm -rf "$t"' EXIT
# The program is copied to where it is built: nothing is written beside the script.
mkdir -p "$t/demo" && cp -r "$here/kit/." "$t/demo/"
mkdir -p "$t/demo/llvm/lib"
ln -sf /root/.rustup/toolchains/1.98.1-x86_64-unknown-linux-gnu/lib/libLLVM.so.22.1-rust-1.98.1-stable "$t/demo/llvm/lib/libLLVM-22.so"
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=$t/demo/llvm/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=$t/target TMPDIR=$t
export LLVM_SYS_221_PREFIX=$t/demo/llvm CXX=$t/demo/llvm/bin/c++
unset RUSTFLAGS
cd "$t/demo" && cp -n /repo/Cargo.lock Cargo.lock
cargo build --offline >"$t/build.log" 2>&1 || { tail -30 "$t/build.log"; exit 3; }
timeout 200 "$t/target/debug/demo"
