#!/bin/bash
# replay.sh FILE: re-executes a recorded violation against /repo's working tree and prints the history; exit 1 if it reproduces
F="$(realpath "$1")"
cd "$(dirname "$0")/.." || exit 2
. dsim/run.sh
dsim replay --file "$F"
