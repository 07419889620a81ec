#!/bin/bash
# survey.sh SECONDS PROPERTY...: development aid, tallies every violation kind seen under each property's workload
cd "$(dirname "$0")/.." || exit 2
. dsim/run.sh
S="$1"; shift
for p in "$@"; do dsim survey --property "$p" --secs "$S" --seed "${VERIF_SEED:-1}" --out "$B/survey"; done
