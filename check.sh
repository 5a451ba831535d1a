#!/bin/bash
# check.sh <property id> [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
if [ ! -x bin/ggverif ]; then ./setup.sh >&2 || { echo "checker does not build"; echo "VIOLATION property=$id replay=-"; exit 1; }; fi
export VERIF_TIER="$tier" GOMEMLIMIT=6GiB
timeout 850 bin/ggverif -repo "${GGREPO:-/repo}" -home "$PWD" -prop "$id" -tier "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then echo "the checker did not finish (status $rc)"; echo "VIOLATION property=$id replay=-"; exit 1; fi
exit $rc
