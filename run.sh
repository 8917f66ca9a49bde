#!/bin/bash
# Usage: run.sh <property> quick|thorough [engine flags]
#        run.sh replay <file>
#        run.sh list | setup
# Builds the explorer against /repo's current working tree (nothing is cached but Go's build cache)
# and runs it. Exit 0: held on everything explored; 1: VIOLATION line printed; else: broken check.
export HOME=/root PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod CGO_ENABLED=1
V=$(cd "$(dirname "$0")" && pwd)
MC=$V/mc
T=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT

prepare() {
	local src
	src=$(cd /repo && go list -m -f '{{.Dir}}' github.com/matehaxor03/holistic_common) || { echo "holistic_common is not in the module cache"; return 2; }
	cp -r "$src" "$T/common" && chmod -R u+w "$T/common" || return 2
	sed -i 's/^func IsNil(object interface{}) bool {/func IsNilSlow(object interface{}) bool {/' "$T/common/common/Common.go" || return 2
	cp "$MC/fastcommon/fast.go.txt" "$T/common/common/zz_fast.go" || return 2
	cp "$MC/go.mod" "$T/go.mod" && cp "$MC/go.sum" "$T/go.sum" || return 2
	echo "replace github.com/matehaxor03/holistic_common => $T/common" >>"$T/go.mod"
}

build() { # out, extra flags
	local out=$1
	shift
	(cd "$MC" && go build -modfile="$T/go.mod" "$@" -o "$out" .) >"$T/build.log" 2>&1 || {
		echo "build failed:"
		head -c 4000 "$T/build.log"
		return 2
	}
}

flavour() { # property -> builds $T/mc as that property needs
	if [ "$1" = C19 ] && [ -d "$MC/rewrite" ]; then
		(cd "$MC" && go run -modfile="$T/go.mod" ./rewrite -out "$T/overlay" -json "$T/overlay.json" /repo/json) || return 2
		build "$T/mc" -tags sched -overlay "$T/overlay.json" || return 2
		build "$T/mcrace" -race || return 2
	else
		build "$T/mc" || return 2
	fi
}

case "$1" in
setup)
	prepare || exit 2
	build "$T/mc" || exit 2
	if [ -d "$MC/rewrite" ]; then flavour C19 || exit 2; fi
	exit 0
	;;
list)
	prepare && build "$T/mc" || exit 2
	"$T/mc" -list
	exit $?
	;;
replay)
	prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
	prepare && flavour "$prop" || exit 2
	"$T/mc" -verif "$V" -race-bin "$T/mcrace" -replay "$2"
	exit $?
	;;
C*)
	prop=$1
	tier=${2:-${VERIF_TIER:-quick}}
	shift 2
	prepare && flavour "$prop" || exit 2
	"$T/mc" -verif "$V" -race-bin "$T/mcrace" -prop "$prop" -tier "$tier" "$@"
	exit $?
	;;
*)
	sed -n 2,4p "$0"
	exit 2
	;;
esac
