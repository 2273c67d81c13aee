#!/bin/bash
# suite.sh: rebuild /repo and list the stable tests that fail
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { grep -E '^error' -A9 /tmp/b.log | head -40; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 /verif/tools/cmp_tests.py /tmp/out.json
