#!/bin/bash
# check.sh ID [CASES]    - run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE   - rerun a replay file
V="$(cd "$(dirname "$0")" && pwd)"
bash "$V/build.sh" || exit 2
export AMV_VERIF="$V" AMV_SUT="$V/.build/sut/debug/accountmerge"
if [ "$1" = replay ]; then
  exec "$V/.build/harness/release/amv" replay "$2"
fi
exec "$V/.build/harness/release/amv" check "$@"
