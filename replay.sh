#!/bin/bash
# replay.sh FILE: runs the case of a replay file against /repo's current tree (exit 1 when it fails).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
f=$(realpath "$1")
CARGO_TARGET_DIR=.build/oracle cargo build --release --offline --locked --manifest-path oracle/Cargo.toml 2>/dev/null || exit 2
grep -q '^#case' "$f" || { cat "$f"; exit 0; }
.build/oracle/release/oracle replay "$f"
