#!/bin/bash
# Build the harness once; checks rebuild incrementally.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p work
python3 tools/mkws.py || exit 2
cargo build --release --offline --locked --manifest-path harness/Cargo.toml || exit 2
