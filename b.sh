#!/bin/sh
# developer shortcut: stage + build one harness
S=${1:-light}; SET=full; case $S in light|derive) SET=light;; mid|models|protocol_parser|memory_pool|datafusion*) SET=mid;; esac
python3 /verif/stage.py --repo ${REPO:-/repo} --set $SET >/dev/null || exit 1
W=/verif/build/ws-$SET
cd $W && RUSTUP_TOOLCHAIN=1.82 CARGO_NET_OFFLINE=true cargo build -p $S --target-dir /verif/build/target 2>&1 | grep -vE "^\s*(Compiling|Fresh)" | grep -A12 -E "^(error)|Finished|could not" | head -${2:-80}
