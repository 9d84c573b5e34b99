#!/bin/bash
# replay.sh FILE: builds the simulator from /repo's working tree and replays FILE exactly.
# Exit 1 and a report: the violation was reproduced; 0: no violation; 5: the run differs.
here=$(cd "$(dirname "$0")" && pwd)
f=$(readlink -f "$1")
tmp=$(mktemp -d /tmp/healer-sim.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
bash "$here/sim/build.sh" "$tmp" >"$tmp/build.log" 2>&1 || { tail -40 "$tmp/build.log" >&2; exit 2; }
"$tmp/simrunner" replay "$f"
