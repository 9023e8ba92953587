#!/bin/bash
# usage: check.sh <property id>; VERIF_SEED and VERIF_TIER choose the workload
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
REPO=${VERIF_REPO:-/repo}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
ID=$1
SCRATCH=$(mktemp -d /tmp/verif-"$ID".XXXXXX) || exit 2
export TMPDIR=$SCRATCH
VERIF_OTHERFS=$(mktemp -d /dev/shm/verif-"$ID".XXXXXX 2>/dev/null)
export VERIF_OTHERFS
trap 'rm -rf "$SCRATCH" ${VERIF_OTHERFS:+"$VERIF_OTHERFS"}' EXIT
trap 'exit 2' INT TERM
grep -h "^finding: property=$ID " known-findings.txt 2>/dev/null | sed 's/^finding:/KNOWN-FINDING:/'
if ! (cd harness && go build -o "$SCRATCH/harness" .) >"$SCRATCH/build.log" 2>&1; then
	cat "$SCRATCH/build.log"
	echo "INCONCLUSIVE property=$ID the harness does not build"
	exit 2
fi
"$SCRATCH/harness" -prop "$ID" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -repo "$REPO" -verif "$VERIF" -scratch "$SCRATCH"
exit $?
