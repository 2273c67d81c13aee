#!/bin/bash
# mut.sh PROP FILE PYTHON-EXPR-OLD NEW [SCALE]: try one textual change to /repo against a check, then undo it
f=/repo/$2
python3 - "$f" "$3" "$4" <<'P' || exit 3
import sys
f,a,b=sys.argv[1:]
s=open(f).read()
if a not in s: print("NOT FOUND",a); sys.exit(1)
open(f,"w").write(s.replace(a,b,1))
P
cd /verif/harness; . ../env.sh
if cargo build --release --offline >/tmp/mut.log 2>&1; then
  for p in ${1//,/ }; do
    out=$(VERIF_SCALE=${5:-0.5} ../work/target/release/dvh check $p 2>/dev/null); rc=$?
    echo "rc=$rc $p [$3 -> $4] $(echo "$out" | grep -v '^KNOWN' | sed -n 2p | cut -c1-200)"
  done
else echo "BUILD FAIL"; tail -20 /tmp/mut.log; fi
git -C /repo checkout -q -- "$2"
