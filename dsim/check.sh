#!/bin/bash
# check.sh PROPERTY [SECONDS]
# exit 0: held on everything explored; 1: VIOLATION; anything else: the check itself failed
P="$1"
TIER="${VERIF_TIER:-quick}"
cd "$(dirname "$0")/.." || exit 2
. dsim/run.sh
if [ "$TIER" = thorough ]; then S="${2:-600}"; else S="${2:-40}"; fi
dsim check --property "$P" --tier "$TIER" --seed "${VERIF_SEED:-1}" --secs "${DSIM_SECS:-$S}" --out "$VERIF/out" \
  --evidence "${DSIM_EVIDENCE:-$VERIF/evidence/$P.json}" --known "$VERIF/known_findings.txt" --known-dir "$VERIF/known"
