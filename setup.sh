#!/bin/bash
# checks build what they need; this only shows that the harness builds here
cd "$(dirname "$0")/harness" || exit 1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
D=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
go build -o "$D/harness" .
RC=$?
rm -rf "$D"
exit $RC
