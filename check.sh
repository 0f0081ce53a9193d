#!/bin/bash
# check.sh PROPERTY [quick|thorough]   run one check against /repo's working tree
# check.sh replay FILE                 replay a recorded violation
V=/verif
export VERIF_SEED=${VERIF_SEED:-1}
exec 9>/tmp/.dsim-build.lock
flock 9
if ! bash $V/dsim/build.sh >/tmp/dsim-build.$$.log 2>&1; then
  cat /tmp/dsim-build.$$.log >&2
  rm -f /tmp/dsim-build.$$.log
  echo "check: build failed" >&2
  exit 3
fi
rm -f /tmp/dsim-build.$$.log
flock -u 9
exec 9>&-
if [ "$1" = replay ]; then
  exec $V/.build/drv -replay "$2" -verif $V -bin ${DSIM_OUT:-$V/.build}/sim
fi
TIER=${2:-quick}
BUDGET=30s
[ "$TIER" = thorough ] && BUDGET=${DSIM_BUDGET:-30m}
[ -n "$DSIM_BUDGET" ] && BUDGET=$DSIM_BUDGET
exec $V/.build/drv -prop "$1" -tier "$TIER" -seed "$VERIF_SEED" -budget "$BUDGET" -verif $V -bin ${DSIM_OUT:-$V/.build}/sim
