#!/bin/bash
# compiles the code under test and the harness into $1
set -e
. "$(dirname "$0")/env.sh"
W="$1"
mkdir -p "$W/user" "$W/h"
"$JH/bin/javac" --release 17 -nowarn -proc:none -g -XDstringConcat=inline -cp "$LOG4J" -d "$W/user" \
  $(find "$REPO/src/main/java" -name '*.java') 2> "$W/user.log" || { cat "$W/user.log" >&2; echo "cannot compile the code under test" >&2; exit 2; }
"$JH/bin/javac" -nowarn -proc:none -g -XDstringConcat=inline $EXPORTS -cp "$B/fw:$W/user:$LOG4J" -d "$W/h" \
  $(find "$VERIF/dsim/src/dsim/h" -name '*.java') 2> "$W/h.log" || { cat "$W/h.log" >&2; echo "cannot compile the harness" >&2; exit 2; }
