#!/bin/bash
# bash check.sh C01 [quick|thorough]     decides one property for /repo's working tree
# bash check.sh --replay FILE            runs the case of a replay file again
# bash check.sh --setup                  compiles everything once (fills the build cache)
# exit 0: held; 1: VIOLATION line; anything else: no verdict
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -x /opt/veriftools/go1.27.3/bin/go ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1
unset GOEXPERIMENT GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GORACE

tmp=$(mktemp -d /tmp/aitch-check.XXXXXXXX) || exit 2
cleanup() { case $tmp in /tmp/aitch-check.*) rm -rf -- "$tmp" ;; esac; }
trap cleanup EXIT
trap 'exit 130' INT TERM HUP

build() { # build OUT [flags]
	local out=$1
	shift
	( cd "$here/harness" && go build "$@" -o "$out" . ) || { echo "INCONCLUSIVE cannot build the monitors against /repo"; exit 3; }
}

case ${1:-} in
--setup)
	build "$tmp/mon"
	build "$tmp/monr" -race
	( cd "$here/harness" && go list -export -deps github.com/go-andiamo/aitch/html github.com/go-andiamo/aitch/svg ) >/dev/null || exit 3
	echo "monitors built"
	exit 0
	;;
--replay)
	file=${2:?replay file}
	prop=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -n 1)
	args=(-replay "$file")
	;;
C[0-9][0-9])
	prop=$1
	args=(-prop "$prop" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}")
	;;
*)
	sed -n 2,5p "$0"
	exit 2
	;;
esac

if [ "$prop" = C07 ]; then
	build "$tmp/mon" -race
else
	build "$tmp/mon"
fi
mkdir "$tmp/work"
"$tmp/mon" -verif "$here" -src "$here/harness" -tmp "$tmp/work" "${args[@]}"
exit $?
