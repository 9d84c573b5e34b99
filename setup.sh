#!/bin/bash
# setup.sh: nothing is kept between runs; this only shows that the framework builds and replays deterministically.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/healer-sim.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
bash "$here/sim/build.sh" "$tmp" || exit 2
"$tmp/simrunner" list
