#!/bin/bash
# builds the simulator (not the code under test) into build/fw
set -e
. "$(dirname "$0")/env.sh"
FW="$B/fw"
if [ -f "$FW/.stamp" ] && [ -z "$(find "$VERIF/dsim/src/dsim/api" "$VERIF/dsim/src/dsim/rt" "$VERIF/dsim/src/dsim/boot" "$VERIF/dsim/src/dsim/gen" "$VERIF/dsim/env.sh" -newer "$FW/.stamp" -print -quit)" ]; then
  exit 0
fi
T="$B/fw.tmp.$$"
mkdir -p "$T"
"$JH/bin/javac" -nowarn -XDignore.symbol.file -proc:none -g $EXPORTS -cp "$ASM:$LOG4J" -d "$T" \
  $(find "$VERIF"/dsim/src/dsim/{api,rt,boot,gen} -name '*.java') 2> "$T/javac.log" || { cat "$T/javac.log" >&2; exit 2; }
touch "$T/.stamp"
if [ -d "$FW" ]; then mv "$FW" "$B/fw.old.$$"; fi
mv "$T" "$FW"
if [ -d "$B/fw.old.$$" ]; then find "$B/fw.old.$$" -delete; fi
