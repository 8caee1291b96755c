#!/bin/bash
# Builds everything the checks use, from the committed files and /repo.
. "$(dirname "$(readlink -f "$0")")/scripts/lib.sh"
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence"
build_vh && build_tools && build_shim && { [ ! -d "$VERIF_DIR/shuttle" ] || build_vs; }
