#!/bin/bash
# usage: run.sh ID [quick|thorough] | run.sh replay FILE
# Builds the harness against /repo's working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off
unset GODEBUG GOEXPERIMENT GOTRACEBACK
export VC_VERIF=$here VC_REPO=/repo
export VERIF_SEED=${VERIF_SEED:-1}
id=$1
tier=${2:-${VERIF_TIER:-quick}}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vc.XXXXXXXX") || exit 2
export VC_SCRATCH=$scratch
trap 'chmod -R u+w "$scratch" 2>/dev/null; rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
cp -r "$here/harness" "$scratch/harness" || exit 2
export VC_HARNESS=$scratch/harness
if ! (cd "$scratch/harness" && go build -o "$scratch/vc" ./cmd/vc) >"$scratch/build.log" 2>&1; then
	cat "$scratch/build.log" >&2
	echo "can't build the harness against /repo" >&2
	exit 2
fi
if [ "$id" = build ]; then
	exit 0
fi
if [ "$id" = replay ]; then
	"$scratch/vc" replay "$2"
else
	"$scratch/vc" check "$id" "$tier"
fi
rc=$?
exit $rc
