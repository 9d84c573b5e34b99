#!/bin/bash
# build.sh DIR: copies /repo's working tree to DIR, instruments it and builds DIR/simrunner.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
out=$1
export HOME=${HOME:-/root}
export GOROOT=/opt/veriftools/go1.23.12
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} CGO_ENABLED=0
[ -n "$out" ] && [ -d "$out/m" ] && rm -rf "$out/m"
mkdir -p "$out/m"
(cd "$here/gen" && GOFLAGS= go build -o "$out/simgen" .)
cp "$repo/go.mod" "$repo/go.sum" "$out/m/"
# every non-test Go file of the library and of the command line tool
(cd "$repo" && find . -name '*.go' ! -name '*_test.go' ! -path './docs/*' ! -path './.git/*' | while read -r f; do
  mkdir -p "$out/m/$(dirname "$f")"; cp "$f" "$out/m/$f"; done)
mkdir -p "$out/m/docs" && echo 'package docs' > "$out/m/docs/docs.go" # generated documentation, no behaviour
cp -r "$here/rt" "$out/m/zz_sim"
cd "$out/m"
pkgs=$(go list -deps ./zz_sim/runner 2>/dev/null | grep '^github.com/childe/healer' | grep -v zz_sim | sort -u)
"$out/simgen" "$out/m" github.com/childe/healer $pkgs
go build -o "$out/simrunner" ./zz_sim/runner
