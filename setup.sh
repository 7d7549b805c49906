#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p target evidence replays
python3 tools/gen_props.py || exit 2
RUSTFLAGS="--cfg moka_verif" cargo build --release --offline \
  --manifest-path harness/Cargo.toml --target-dir target
