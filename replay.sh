#!/bin/bash
# usage: replay.sh FILE   (re-run one recorded failure against /repo's current tree)
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
python3 tools/mkws.py >&2 || exit 2
cargo build --release --offline --locked --manifest-path harness/Cargo.toml > work/build.log 2>&1 || { tail -40 work/build.log >&2; exit 2; }
exec work/target/release/dvh replay "$f"
