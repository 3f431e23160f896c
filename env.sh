# Sourced by every script here.
export HOME=/root
export PATH=/verif/llvm/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export RUSTC_WRAPPER=
export LLVM_SYS_221_PREFIX=/verif/llvm CXX=/verif/llvm/bin/c++
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS
