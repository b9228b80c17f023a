#!/bin/bash
# check.sh <property>: builds the analyser and analyses /repo with it
cd "$(dirname "$0")" || exit 1
id=$1
fail() {
	echo "$1"
	mkdir -p evidence
	echo "$1" > "evidence/$id.violations.txt"
	echo "VIOLATION property=$id replay=$PWD/evidence/$id.violations.txt"
	exit 1
}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export VERIF_OUT=$PWD
tmp=$(mktemp -d) || fail "no temporary directory"
trap 'rm -rf "$tmp"' EXIT
(cd analyzer && go build -o "$tmp/vt" .) || fail "the analyser does not build"
timeout ${VERIF_TIMEOUT:-$([ "$VERIF_TIER" = thorough ] && echo 7200 || echo 850)} "$tmp/vt" check "$id"
case $? in
0) exit 0 ;;
1) exit 1 ;;
*) fail "the analysis of $id did not finish" ;;
esac
