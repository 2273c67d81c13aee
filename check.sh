#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p work
exec 9> work/.lock
flock 9
python3 tools/mkws.py >&2 || exit 2
cargo build --release --offline --locked --manifest-path harness/Cargo.toml > work/build.log 2>&1 || { tail -40 work/build.log >&2; echo "build failed" >&2; exit 2; }
cp -f work/target/release/dvh work/dvh.$$ || exit 2
flock -u 9
work/dvh.$$ check "$1" ${2:+"$2"}
rc=$?
rm -f "work/dvh.$$"
exit $rc
