#!/bin/bash
# Usage: check.sh PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Builds the symbolic executor and decides one property against /repo's current tree.
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
export SYMGO_VERIF="$PWD" SYMGO_REPO="${SYMGO_REPO:-/repo}"
exec ./.bin/symgo check "$1"
