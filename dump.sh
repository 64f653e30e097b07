#!/bin/bash
# dump.sh OUT.json [cfg args...]: MIR facts of /repo's current working tree.
# Compiles /repo/src/lib.rs (edition 2015, as its Cargo.toml says) with the mirdump driver.
set -e
V=$(cd "$(dirname "$0")" && pwd); OUT=$1; shift
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
D=$V/build/deps/debug
AL=$(ls $D/build/alga/*/out/libalga-*.rmeta | head -1)
NU=$(ls $D/build/num/*/out/libnum-*.rmeta | head -1)
L=(); for d in $D/build/*/*/out; do L+=(-L "dependency=$d"); done
MIRDUMP_OUT=$OUT MIRDUMP_SKIP="${MIRDUMP_SKIP-}" "$V/build/driver/debug/mirdump" --sysroot "$(rustc +nightly --print sysroot)" \
  --crate-name pbrtrs --edition 2015 --crate-type lib --cap-lints allow -C debug-assertions=on \
  --extern alga="$AL" --extern num="$NU" "${L[@]}" "$@" "${PBRTRS_SRC:-/repo}/src/lib.rs"
