#!/bin/bash
# usage: check.sh PROPERTY | check.sh replay FILE | check.sh build - builds the simulator against /repo's working tree and runs one check
export HOME=/root LANG=C.UTF-8
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
start=$PWD
here=$(cd "$(dirname "$0")" && pwd)
cache=$(go env GOCACHE 2>/dev/null)
work=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 4
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
[ -w "${cache:-/nonexistent}" ] || export GOCACHE="$work/gocache"
fail() { echo "ERROR: $1" >&2; tail -c 3000 "$work/build.log" >&2; exit 4; }
gcc -O2 -fPIC -c "$here/wasmsim/wasmsim.c" -o "$work/wasmsim.o" >"$work/build.log" 2>&1 || fail "wasm engine does not build"
ar rcs "$work/libwasmer_linux_amd64.a" "$work/wasmsim.o" || fail "ar"
export CGO_LDFLAGS="-L$work -lpthread"
# the pipes of the VM process and the disk of the debugger are simulated by hooks behind a build tag; everything else runs without it
build() { (cd "$here/sim" && go build -trimpath $1 -o "$work/simcheck" . >"$work/build.log" 2>&1) || fail "the simulator does not build against /repo"; }
case "$1" in
  replay) property=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$(cd "$start" && realpath "$2")" | head -1);;
  *) property=$1;;
esac
case "$property" in
  build) build "-tags verif"; build "";;
  I*|D*) build "-tags verif";;
  *) build "";;
esac
export VERIF_FINDINGS="$here/known-findings.json" VERIF_EVIDENCE="$here/evidence"
if [ "$1" = build ]; then echo "built"; exit 0; fi
if [ "$1" = replay ]; then "$work/simcheck" replay "$(cd "$start" && realpath "$2")"; exit $?; fi
"$work/simcheck" check "$1"
