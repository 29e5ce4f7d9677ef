#!/bin/bash
# builds the extractor and the replay program (offline); every check rebuilds what changed
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
(cd vx && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../.build/vx cargo build --release --offline -q) || exit 1
(cd replay && RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../.build/replay cargo build --release --offline -q) || exit 1
verus --version >/dev/null || exit 1
python3 -c "import sys; sys.path.insert(0, '.'); import wipe; print(wipe.driver()[1] or 'C21: driver not built'); wipe.os.makedirs('.build/work/C21', exist_ok=True); wipe.expand('.build/work/C21')" >/dev/null || exit 1
