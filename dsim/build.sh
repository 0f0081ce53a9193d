#!/bin/bash
# Builds the simulator from /repo's working tree into /verif/.build.
# DSIM_REPO and DSIM_OUT name another tree and output folder (used to try out planted bugs in scratch copies).
set -e
D=/verif/dsim
OUT=${DSIM_OUT:-/verif/.build}
REPO=${DSIM_REPO:-/repo}
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOCACHE=/verif/.build/gocache GOWORK=off CGO_ENABLED=0 GONOSUMDB='*' GONOSUMCHECK=1
unset GOROOT GOEXPERIMENT GODEBUG LD_LIBRARY_PATH
mkdir -p $OUT
(cd $D/gen && go build -o $OUT/gen main.go)
(cd $D/drv && go build -o $OUT/drv .)
$OUT/gen -goroot /opt/veriftools/go1.24.13 -repo $REPO -dsim $D -out $OUT/overlay
cd $D/sim
MOD=
if [ "$REPO" != /repo ]; then
  sed "s#=> /repo#=> $REPO#" go.mod >$OUT/go.mod
  cp go.sum $OUT/go.sum
  MOD=-modfile=$OUT/go.mod
fi
go build $MOD -overlay $OUT/overlay/overlay.json -tags faketime -o $OUT/sim .
# the same with the race detector (only the harness itself is left out)
if ! CGO_ENABLED=1 go build $MOD -race -gcflags=dsim.test=-race=false -overlay $OUT/overlay/overlay.json -tags faketime -o $OUT/sim-race . 2>$OUT/race.log; then
  cat $OUT/race.log
  echo "build: no race detector"
  rm -f $OUT/sim-race
fi
