#!/bin/bash
# check.sh PROPERTY [-quick|-thorough] [-v]: builds the symbolic executor if
# needed and decides one property for the working tree in /repo.
set -u
V=/verif
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
if [ ! -x $V/bin/gosym ] || [ -n "$(find $V/gosym -name '*.go' -newer $V/bin/gosym -print -quit)" ]; then
	mkdir -p $V/bin
	(cd $V/gosym && go build -o $V/bin/gosym.$$ . && mv $V/bin/gosym.$$ $V/bin/gosym) || { echo "cannot build the symbolic executor" >&2; exit 2; }
fi
exec $V/bin/gosym check "$@"
