#!/bin/sh
# Builds every harness once, offline, so that later runs start from built dependencies.
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=1.82 CARGO_NET_OFFLINE=true
mkdir -p build evidence
for s in light mid full; do
    python3 stage.py --set $s || exit 1
done
(cd build/ws-light && cargo build -q -p light -p derive --target-dir ../target) || exit 1
(cd build/ws-mid && cargo build -q -p mid --target-dir ../target) || exit 1
(cd build/ws-full && cargo build -q -p full --target-dir ../target) || exit 1
exit 0
