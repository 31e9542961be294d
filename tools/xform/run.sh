#!/bin/bash
# run.sh kind [only] : transform a copy and run all checks
k=$1; R=/tmp/xform/repo-$k
/bin/rm -rf "$R"; cp -a /repo "$R"; cd "$R"
PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod /tmp/xform/xform "$R" "$@" > /tmp/xform/$k.edits 2>&1
. /opt/vp/env.sh
if ! go build ./... > /tmp/xform/$k.build 2>&1; then echo "$k: BUILD FAILS"; head -${ERRS:-8} /tmp/xform/$k.build; exit; fi
go test -vet=off ./... 2>&1 | grep -v "no test files\|^ok" | tail -3
/tmp/chkx -repo "$R" -property ${PROP:-ALL} -noevidence > /tmp/xform/$k.out 2>&1
echo "$k: edits $(awk '{s+=$2} END{print s}' /tmp/xform/$k.edits) alarms: $(grep '^VIOLATION' /tmp/xform/$k.out | sed 's/VIOLATION property=\([^ ]*\).*/\1/' | sort | uniq -c | tr '\n' ' ')"
