#!/bin/bash
# Usage: tools/seed.sh ID: confirms a seeded bug in a scratch copy of /repo: the patch applies, builds, passes the stable tests,
# and its demonstration passes without it and fails with it. Then runs the property's check against the copy (unless NOCHECK is set).
id=$1; v=$(cd "$(dirname "$0")/.." && pwd); s=$v/seeded/$id
w=/tmp/w/seed-$id-$$; mkdir -p /tmp/w; cp -a /repo "$w"; git -C "$w" checkout -q -- .
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin GOROOT=/opt/veriftools/go1.23.12 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
done_() { rm -rf "$w"; exit "$1"; }
cd "$w"
bash "$s/demo.sh" >"/tmp/w/$id.clean.log" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -20 "/tmp/w/$id.clean.log"; done_ 1; }
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; done_ 1; }
go build ./... || { echo "$id: does not build"; done_ 1; }
bash "$s/demo.sh" >"/tmp/w/$id.bug.log" 2>&1 && { echo "$id: demo passes with the bug"; done_ 1; }
if [ -z "$NOTEST" ]; then
 m=github.com/hyperonym/ratus/internal/engine/mongodb
 (flock 9; go test -vet=off -count=1 -p 1 -parallel 1 $(go list ./... | grep -vx $m) && go test -count=1 -short $m) 9>/tmp/w/test.lock >"/tmp/w/$id.test.log" 2>&1 || { echo "$id: TESTS FAIL"; grep -a -- "--- FAIL\|FAIL" "/tmp/w/$id.test.log" | head; done_ 1; }
fi
if [ -z "$NOCHECK" ]; then
 unset GOROOT GOFLAGS; export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
 p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
 cd "$v"; t0=$SECONDS; SYMGO_REPO=$w VERIF_TIER=quick ./check.sh "$p" >"/tmp/w/$id.check.log" 2>&1; rc=$?
 echo "$id $p check rc=$rc $((SECONDS-t0))s $(grep -a -A1 VIOLATION /tmp/w/$id.check.log | sed -n 2p)"
else echo "$id ok"; fi
done_ 0
