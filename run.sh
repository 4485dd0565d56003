#!/bin/bash
# usage: run.sh <property id...|all>: decides properties from /repo's current source.
cd /verif || exit 1
if [ ! -x /verif/bin/checker ]; then bash /verif/setup.sh >&2 || { echo "VIOLATION property=$1 replay=/verif/setup.sh"; exit 1; }; fi
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
exec /verif/bin/checker "$@"
