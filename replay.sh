#!/bin/bash
# usage: replay.sh FILE   runs one recorded case again (exit 0 passes, 1 VIOLATION)
. "$(dirname "$(readlink -f "$0")")/scripts/lib.sh"
f=$(readlink -f "$1")
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 2
build_for "$id" || exit 2
exec_for "$id" replay "$f"
