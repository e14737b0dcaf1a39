#!/bin/bash
# build.sh sym|rep|driver : builds from /repo's current tree. BUILD dir is git-ignored.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTUP_TOOLCHAIN RUSTC_WRAPPER RUSTFLAGS
SYSROOT=$(rustc +nightly --print sysroot)
B=${SYM_BUILD:-$PWD/.build}
mkdir -p $B
case $1 in
driver)
  cargo +nightly build --release --offline --manifest-path driver/Cargo.toml --target-dir $B/driver ;;
sym)
  export RUSTC=$B/driver/release/symrustc LD_LIBRARY_PATH=$SYSROOT/lib
  export SYM_FNMAP=$B/fnmap
  export RUSTFLAGS="-Zinline-mir=no -Zshare-generics=no --sysroot $SYSROOT --cap-lints allow"
  $SYSROOT/bin/cargo -Zchecksum-freshness build --offline --locked --manifest-path build_sym/Cargo.toml --target-dir $B/sym ;;
rep)
  export RUSTFLAGS="--cap-lints allow"
  cargo +nightly -Zchecksum-freshness build --offline --locked --manifest-path build_rep/Cargo.toml --target-dir $B/rep ;;
esac
