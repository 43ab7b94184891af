#!/bin/bash
# builds every check from the committed files, offline
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
set -e
cd "$HERE/harness" && cargo build --offline --target-dir "$HERE/target"
if [ -d "$HERE/sched" ]; then cd "$HERE/sched" && cargo build --offline --target-dir "$HERE/target-sched"; fi
