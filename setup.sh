#!/bin/bash
# Builds the extractor and the oracle from the committed files (offline). Every check repeats this itself.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p .build evidence
CARGO_TARGET_DIR=.build/extractor cargo build --release --offline --locked --manifest-path extractor/Cargo.toml &&
CARGO_TARGET_DIR=.build/oracle cargo build --release --offline --locked --manifest-path oracle/Cargo.toml
