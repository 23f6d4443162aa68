#!/bin/bash
# check.sh PROPERTY [ARGS...]: rebuilds the simulator around /repo's working tree and
# decides one property. Exit 0: held. Exit 1 with a VIOLATION line: broken. Else: error.
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=$PWD/.build/gocache
unset GODEBUG GOMAXPROCS GOEXPERIMENT GORACE
mkdir -p .build/overlay out/replays || exit 3
build() {
	go build -o .build/overlaygen ./overlaygen &&
		.build/overlaygen "$(go env GOROOT)" .build/overlay >.build/overlay.log &&
		go build -overlay "$PWD/.build/overlay/overlay.json" -o .build/vsim ./cmd/vsim
}
if ! build 2>.build/build.log; then
	cat .build/overlay.log .build/build.log >&2
	echo "build failed" >&2
	exit 3
fi
[ "$1" = build ] && exit 0
p=$1
shift
exec .build/vsim check -prop "$p" "$@"
