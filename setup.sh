#!/bin/bash
# Builds the MIR dump driver and the metadata of the dependencies; offline.
set -e
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
(cd "$V/driver" && cargo +nightly build --offline --target-dir "$V/build/driver")
(cd "$V/deps" && cargo +nightly build --offline --target-dir "$V/build/deps")
