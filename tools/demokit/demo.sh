#!/bin/bash
# Runs zz_demo_test.go (beside this script) in package healer_test of the tree in
# the current directory, against a broker model on the loopback network.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
repo=$(pwd)
python3 - "$here" "$repo" > "$tmp/overlay.json" <<'PY'
import json, os, sys
here, repo = sys.argv[1:]
r = {repo + "/zz_demo_test.go": here + "/zz_demo_test.go.txt"}
for f in os.listdir(here + "/model"):
    pkg, name = f.split("__")
    r["%s/zz_sim/%s/%s" % (repo, pkg, name[:-4])] = here + "/model/" + f
print(json.dumps({"Replace": r}))
PY
timeout 200 go test -count=1 -overlay "$tmp/overlay.json" -vet=off -timeout 180s -run 'TestDemo' . > "$tmp/out" 2>&1
rc=$?
grep -v '^{"level' "$tmp/out" | tail -40
exit $rc
