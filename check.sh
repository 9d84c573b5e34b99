#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working tree in a scratch
# directory and searches schedules and fault sequences for violations of PROPERTY.
# Exit 0: none found; 1: a VIOLATION line was printed; 2: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case "$seed" in ''|*[!0-9]*) seed=1 ;; esac
if [ "$tier" = thorough ]; then budget=${VERIF_BUDGET:-600s}; else tier=quick; budget=${VERIF_BUDGET:-45s}; fi
tmp=$(mktemp -d /tmp/healer-sim.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
if ! bash "$here/sim/build.sh" "$tmp" >"$tmp/build.log" 2>&1; then
  echo "building the simulator failed" >&2
  tail -40 "$tmp/build.log" >&2
  exit 2
fi
mkdir -p "$here/evidence/replays"
"$tmp/simrunner" check -prop "$prop" -tier "$tier" -seed "$seed" -budget "$budget" \
  -evidence "$here/evidence" -replays "$here/evidence/replays" -known "$here/known-findings.txt"
