#!/bin/bash
# try.sh SCALE PROP...: build and run a fraction of the quick tier
cd /verif/harness; . ../env.sh; S=$1; shift
cargo build --release --offline 2>&1 | grep -E "^error" -A9 | head -${LINES_MAX:-70}
[ ${PIPESTATUS[0]} = 0 ] || exit 1
for p in "$@"; do VERIF_SCALE=$S timeout 1200 ../work/target/release/dvh check $p 2>/dev/null; python3 ../tools/cov.py $p; done
