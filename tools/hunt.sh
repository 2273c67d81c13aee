#!/bin/bash
# hunt.sh PROP SIGNATURE [SCALE [PREFIX]]: shrink one occurrence of a known finding into corpus/
cd /verif/harness; . ../env.sh
p=$(VERIF_HUNT="$2" VERIF_SCALE=${3:-1} ../work/target/release/dvh check $1 2>/dev/null | sed -n 's/.*replay=//p')
[ -n "$p" ] && cp "$p" ../corpus/$4$(echo "$2" | cut -c1-60).json && ls ../corpus
