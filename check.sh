#!/bin/bash
# Deterministic simulation of /repo's working tree.
#
#   check.sh ID [quick|thorough]   decide one property
#   check.sh replay FILE           repeat a recorded violation
#   check.sh setup                 build once, to see that everything is there
#
# Environment: VERIF_SEED (default 1), VERIF_TIER, VERIF_REPO (default /repo),
# SIM_RUNS and SIM_CAP override the number of runs and the time limit.
# Exit: 0 the property held, 1 VIOLATION, anything else: the check itself failed.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 CGO_ENABLED=0
WORK=$(mktemp -d "${TMPDIR:-/tmp}/gostlsim.XXXXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
trap 'exit 2' INT TERM
if [ -z "${HOME:-}" ] && [ -z "${GOCACHE:-}" ]; then export GOCACHE=$WORK/gocache; fi

build() {
	cp -r "$HERE/sim/rt" "$HERE/sim/harness" "$HERE/sim/instr" "$WORK/" || return 2
	(cd "$WORK/instr" && go build -trimpath -o "$WORK/instrument" .) || return 2
	local coarse=""
	for try in 1 2 3 4; do
		rm -rf "$WORK/gostl"
		mkdir "$WORK/gostl"
		(cd "$REPO" && GOFLAGS=-mod=readonly "$WORK/instrument" -src "$REPO" -out "$WORK/gostl" -coarse "$coarse") || return 2
		if (cd "$WORK/harness" && go build -trimpath -o "$WORK/sim" .) 2>"$WORK/build.log"; then
			return 0
		fi
		# Should the instrumented form of some file not compile, that file keeps
		# its accesses as they are and only its entries, loops and locks are seen.
		local bad
		bad=$(sed -n 's#^\(\.\./gostl/\|[^ ]*/gostl/\)\([^:]*\.go\):.*#\2#p' "$WORK/build.log" | sort -u | paste -sd, -)
		[ -n "$bad" ] || break
		echo "check: instrumenting coarsely: $bad" >&2
		coarse="$coarse,$bad"
	done
	cat "$WORK/build.log" >&2
	return 2
}

case "${1:-}" in
setup)
	build || exit 2
	echo "built"
	;;
replay)
	[ -f "${2:-}" ] || { echo "usage: check.sh replay FILE" >&2; exit 2; }
	FILE=$(cd "$(dirname "$2")" && pwd)/$(basename "$2")
	build || exit 2
	"$WORK/sim" replay -file "$FILE" -sites "$WORK/gostl/sites.json"
	exit $?
	;;
C[0-9][0-9])
	TIER=${2:-${VERIF_TIER:-quick}}
	build || exit 2
	mkdir "$WORK/run"
	"$WORK/sim" check -prop "$1" -tier "$TIER" -seed "${VERIF_SEED:-1}" -verif "$HERE" -dir "$WORK/run" \
		-sites "$WORK/gostl/sites.json" -runs "${SIM_RUNS:-0}" -cap "${SIM_CAP:-0}"
	exit $?
	;;
*)
	echo "usage: check.sh ID [quick|thorough] | replay FILE | setup" >&2
	exit 2
	;;
esac
