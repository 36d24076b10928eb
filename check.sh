#!/bin/bash
# Decides one property from the current source in /repo: check.sh C08
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p bin evidence
(cd analyzer && go build -o ../bin/addrcheck .) || exit 2
[ "$1" = --build ] && exit 0
exec bin/addrcheck -repo /repo -verif "$VERIF" -prop "$1"
