#!/bin/bash
# run.sh ID [quick|thorough]   runs the monitors of one property against /repo
# run.sh replay FILE           runs the recorded case of a violation again
# run.sh setup                 builds everything once
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
unset GODEBUG GORACE GOGC

TMP=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
export TMPDIR=$TMP
trap 'rm -rf "$TMP"' EXIT

build() { # build OUT FLAGS...
	local out=$1
	shift
	(cd "$VERIF/harness" && go build -tags verif "$@" -o "$out" .) || {
		echo "the harness does not build against /repo" >&2
		exit 2
	}
}

# the command of the repository, for the checks that run it
build_gpeg() {
	(cd "$VERIF/harness" && go build -o "$TMP/gpeg" github.com/zyedidia/gpeg/cmd/gpeg) || {
		echo "the gpeg command does not build" >&2
		exit 2
	}
	export VERIF_GPEG=$TMP/gpeg
}

case $1 in
setup)
	build "$TMP/vrun"
	build "$TMP/vrun-race" -race
	build_gpeg
	exit 0
	;;
replay)
	case $(basename "$2") in
	C28-*)
		build "$TMP/vrun"
		build_gpeg
		;;
	C13-* | C19-* | C25-*) build "$TMP/vrun" -race ;;
	*) build "$TMP/vrun" ;;
	esac
	"$TMP/vrun" -replay "$2"
	exit $?
	;;
esac

ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $ID in
C28)
	build "$TMP/vrun"
	build_gpeg
	;;
C13 | C19 | C25) build "$TMP/vrun" -race ;;
*) build "$TMP/vrun" ;;
esac
"$TMP/vrun" -prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$VERIF"
exit $?
