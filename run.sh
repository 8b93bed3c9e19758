#!/bin/bash
# Builds the model checker against the current tree of /repo and runs one
# property:   ./run.sh C01 [checker flags]     or   ./run.sh build
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOENV=off GOSUMDB=off GONOSUMDB=*
export PATH=$PATH:/usr/local/go/bin:/usr/local/bin
[ -d /root/go/pkg/mod ] && export GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
REPO=${MC_REPO:-/repo}
OUT=${MC_OUT:-$ROOT/build}
mkdir -p "$OUT" || exit 2
exec 9> "$OUT/.lock"
flock 9

# build_plain: the checker over the sources as they are
build_plain() {
	sed "s#=> /repo#=> $REPO#" mc/go.mod > "$OUT/go.mod" && : > "$OUT/go.sum" || return 1
	(cd mc && go build -modfile="$OUT/go.mod" -o "$OUT/mc.$$" .) && mv "$OUT/mc.$$" "$OUT/mc"
}

# build_sched: the checker over a rewritten copy whose schedules it controls
build_sched() {
	(cd instr && go build -o "$OUT/instr" .) || return 1
	sed "s#=> /repo#=> $OUT/src#" mc/go.mod > "$OUT/sched.mod" && : > "$OUT/sched.sum" || return 1
	local free race
	for free in "" "-free"; do
		for race in "-race" ""; do
			"$OUT/instr" -repo "$REPO" -out "$OUT/src" -shim "$ROOT/shim" $free || return 1
			if (cd mc && go build $race -tags c21 -modfile="$OUT/sched.mod" -o "$OUT/mc.$$" .) 2> "$OUT/sched.err"; then
				mv "$OUT/mc.$$" "$OUT/mc-sched"
				[ -z "$free$race" ] && echo "note: no race detector, schedules and results only" >&2
				[ -n "$free" ] && echo "note: schedules are not controlled" >&2
				return 0
			fi
			cat "$OUT/sched.err" >&2
		done
	done
	return 1
}

if [ "$1" = build ]; then
	build_plain && build_sched
	exit
fi
case "$1" in
C21) build=build_sched BIN=$OUT/mc-sched ;;
*) build=build_plain BIN=$OUT/mc ;;
esac
if ! $build; then
	echo "build of the checker against $REPO failed" >&2
	exit 2
fi
RUN="$BIN-run.$$"
ln -f "$BIN" "$RUN"
flock -u 9
trap 'rm -f "$RUN"' EXIT
export GORACE="exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
ID=$1; shift
"$RUN" -prop "$ID" -root "$ROOT" "$@"
