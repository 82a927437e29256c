#!/bin/bash
# run.sh ID | run.sh replay FILE: builds the framework with the instrumented
# current tree of /repo in a scratch directory, and runs one property.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export PATH=$PATH:/usr/local/go/bin
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
trap 'exit 2' INT TERM
if [ "$1" = replay ]; then set -- replay "$(realpath -- "$2")"; fi
cd "$root/mc" || exit 2
mkdir "$work/src"
if go build -o "$work/instr" ./cmd/instr && "$work/instr" "$work/src" &&
	go build -overlay "$work/src/overlay.json" -o "$work/mc" ./cmd/mc; then
	export VERIF_POINTS=$work/src/points.txt
	case "$1 $2" in
	C15* | replay*C15-*) # the race detector watches every schedule of some scenarios
		if go build -race -overlay "$work/src/overlay.json" -o "$work/mc-race" ./cmd/mc; then
			export VERIF_RACE_BIN=$work/mc-race VERIF_RACELOG=$work/racelog
			export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path=$work/racelog"
		else
			echo "note: the race detector cannot be used" >&2
		fi ;;
	esac
else
	echo "note: building without instrumentation" >&2
	export VERIF_PLAIN=1
	go build -o "$work/mc" ./cmd/mc || exit 2
fi
if [ "$1" = replay ]; then
	"$work/mc" replay "$2"
else
	"$work/mc" check "$1"
fi
