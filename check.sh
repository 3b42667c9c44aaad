#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the tool from /repo, run the property's monitor
cd "$(dirname "$0")" || exit 4
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
./build.sh || { echo "build failed"; exit 4; }
exec python3 -B rtmon/main.py "$1" --tier "$VERIF_TIER" --seed "$VERIF_SEED"
