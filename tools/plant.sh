#!/bin/bash
# plant.sh <id>...: confirms planted bugs in a scratch copy (patch applies, builds, passes the
# stable tests, demo quiet on the unchanged tree and loud with the patch).
# With CHECKS=1 also runs the check of the property against the patched copy.
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/wwv-plant-$id
  rm -rf "$w"; cp -a /repo "$w"
  res="$id"
  (cd "$w" && bash "$d/demo.sh" >/tmp/plant-$id.log 2>&1); r0=$?
  if ! git -C "$w" apply "$d/patch.diff" 2>>/tmp/plant-$id.log; then echo "$id: patch doesn't apply"; rm -rf "$w"; continue; fi
  g=/tmp/wwv-gp-$id; rm -rf "$g"; mkdir -p "$g/src/github.com/qbeon"; ln -s "$w" "$g/src/github.com/qbeon/webwire-go"
  t=$(cd "$g/src/github.com/qbeon/webwire-go" && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOENV=off GO111MODULE=off GOFLAGS= GOTOOLCHAIN=local GOPATH=$g GOCACHE=/verif/.build/gocache CGO_ENABLED=0 GOWORK=off bash -c 'go build ./... && go test -count=1 -vet=off -timeout 120s ./... 2>&1' ); rt=$?
  rm -rf "$g"
  (cd "$w" && bash "$d/demo.sh" >>/tmp/plant-$id.log 2>&1); r1=$?
  ok=BAD; [ $r0 = 0 ] && [ $r1 != 0 ] && [ $r1 != 3 ] && [ $rt = 0 ] && ok=ok
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  res="$id $p $ok demo clean=$r0 patched=$r1 tests=$rt | $(grep BROKEN /tmp/plant-$id.log | tail -1 | cut -c1-120)"
  [ $rt = 0 ] || echo "$t" | grep -E "FAIL|panic|error|\.go:" | head -5
  if [ -n "$CHECKS" ] && [ $ok = ok ]; then
    s=$(date +%s)
    o=$(WWV_REPO=$w python3 /verif/run.py check $p --tier quick 2>&1); rc=$?
    res="$res | check rc=$rc $(( $(date +%s) - s ))s $(echo "$o" | grep -A1 '^VIOLATION' | sed -n 2p | cut -c1-160)"
    [ $rc = 2 ] && res="$res $(echo "$o" | grep ERROR | head -2 | cut -c1-300)"
  fi
  echo "$res"
  rm -rf "$w"
done
