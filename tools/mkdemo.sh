#!/bin/bash
# mkdemo.sh ID: fills seeded/ID with the demonstration kit (demo.sh and the broker model over TCP).
root=$(cd "$(dirname "$0")/.." && pwd); d=$root/seeded/$1; mkdir -p "$d/model"; rm -f "$d"/model/*
cp "$root/tools/demokit/demo.sh" "$d/demo.sh"; chmod +x "$d/demo.sh"
cp "$root/tools/demokit/sim.go" "$d/model/sim__sim.go.txt"
cp "$root/tools/demokit/vnet.go" "$d/model/vnet__vnet.go.txt"
for f in "$root"/sim/rt/kafka/*.go; do
  sed -e 's|b.H = c.Net.AddHost(b.Addr, b)|b.H = c.Net.AddHost(b.Addr, b); b.Addr = b.H.Real; b.Host = "127.0.0.1"; fmt.Sscanf(b.Addr, "127.0.0.1:%d", \&b.Port)|' "$f" > "$d/model/kafka__$(basename "$f").txt"
done
