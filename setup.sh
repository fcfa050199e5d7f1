#!/bin/bash
# Build the fact driver and the metadata of the one dependency; offline.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.build"
(cd "$here/driver" && cargo +nightly build --release --offline --target-dir "$here/.build/driver")
(cd "$here/deps" && cargo +nightly build --offline --target-dir "$here/.build/deps")
test -x "$here/.build/driver/release/mirfacts"
