#!/bin/bash
# run.sh ID [quick|thorough]: builds the harness from /repo's working tree and decides one property.
# run.sh --setup: builds both harnesses. run.sh --replay FILE: executes the case of a violation again.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
export GODEBUG= GOTRACEBACK=single
unset GOOS GOARCH GOEXPERIMENT GORACE GOMAXPROCS GOGC GOMEMLIMIT 2>/dev/null
export HOME="${HOME:-/root}"
mkdir -p build evidence replay || exit 2

# build NAME FLAGS...: compiles the harness with the current tree of /repo.
build() {
	local out="build/$1" tmp="build/.$1.$$" log="build/.$1.$$.log"
	shift
	# P33 (nohand) uses parts of the stmt package that no other check needs: a tree without one of them still has the other checks.
	if ! (cd harness && { go build -trimpath "$@" -o "../$tmp" . || go build -trimpath -tags nohand "$@" -o "../$tmp" .; } ) >"$log" 2>&1; then
		cat "$log" >&2
		rm -f "$tmp" "$log"
		echo "INCONCLUSIVE: the harness does not build with this tree" >&2
		exit 2
	fi
	rm -f "$log"
	mv -f "$tmp" "$out"
}

norace() { CGO_ENABLED=0 build "$1"; }
race() { CGO_ENABLED=1 build "$1" -race; }

case "${1:-}" in
--setup)
	norace harness
	race harness-race
	./build/harness list >/dev/null || exit 2
	./build/harness-race list >/dev/null || exit 2
	exit 0
	;;
--replay)
	norace harness
	id=$(sed -n 's/.*"property": "\(P[0-9]*\)".*/\1/p' "$2" | head -1)
	if ./build/harness israce "$id"; then
		race harness-race
		exec ./build/harness-race replay "$2"
	fi
	exec ./build/harness replay "$2"
	;;
P[0-9]*)
	id="$1"
	export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
	export VERIF_SEED="${VERIF_SEED:-1}"
	bin="harness-$id.$$"
	if [ "$id" = P09 ]; then race "$bin"; else norace "$bin"; fi
	"./build/$bin" check "$id"
	code=$?
	rm -f "build/$bin"
	exit $code
	;;
*)
	echo "usage: run.sh ID [quick|thorough] | --setup | --replay FILE" >&2
	exit 2
	;;
esac
