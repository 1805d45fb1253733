#!/bin/bash
# Runs the demonstrations of the recorded defects against /repo (documentation only, no check uses this).
# usage: run.sh [-run REGEX]
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
ov=$(mktemp)
cat > "$ov" <<J
{"Replace": {"$REPO/zz_findings_test.go": "$here/root_findings_test.go",
"$REPO/zz_reader_test.go": "$here/reader_test.go",
"$REPO/kademlia/zz_findings_test.go": "$here/kad_findings_test.go",
"$REPO/gossip/zz_findings_test.go": "$here/gossip_findings_test.go"}}
J
cd "$REPO"
for spec in .:TestF ./kademlia:TestK ./gossip:TestG; do
  pkg=${spec%%:*}; pre=${spec##*:}
  bin=$(mktemp)
  go test -vet=off -overlay "$ov" -c -o "$bin" "$pkg" || continue
  for t in $(cd "$pkg" && "$bin" -test.list "^$pre[0-9]"); do
    if [ $# -gt 0 ] && ! [[ $t =~ $1 ]]; then continue; fi
    out=$(cd "$pkg" && timeout 60 "$bin" -test.run "^$t\$" -test.timeout 40s 2>&1) && echo "ok   $t" || { echo "FAIL $t"; echo "$out" | grep -E '_test.go:|panic:|timed out' | head -3; }
  done
  rm -f "$bin"
done
rm -f "$ov"
