#!/bin/bash
# Builds the native replay binary and the dependencies of the verification build once (offline); every check
# rebuilds what changed.
cd "$(dirname "$0")/../harness" || exit 1
export CARGO_NET_OFFLINE=true
cargo build --release --offline --bin replay --target-dir target/native || exit 1
cargo kani --lib --target-dir target/vk -Z unstable-options -Z stubbing --only-codegen --exact --harness wx::reservation > /tmp/setup.$$ 2>&1
rc=$?
[ $rc = 0 ] || tail -20 /tmp/setup.$$
rm -f /tmp/setup.$$
exit $rc
