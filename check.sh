#!/bin/bash
# usage: check.sh ID   (VERIF_TIER=quick|thorough, VERIF_SEED=N)
# Builds the harness from /repo's working tree and decides one property.
# exit 0: held; 1: VIOLATION; anything else: no answer (build failure, harness error).
. "$(dirname "$(readlink -f "$0")")/scripts/lib.sh"
build_for "$1" || exit 2
exec_for "$1" check
