#!/bin/bash
# check.sh PROPERTY [quick|thorough]  -- decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
bash ./build.sh || { echo "check error: the engine does not build" >&2; exit 2; }
exec ./bin/engine -id "$1" -tier "$tier"
