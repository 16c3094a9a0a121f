#!/bin/bash
# tools/seed.sh <seeded id>... : confirms a planted bug (applies, builds, stable tests pass, demo 0 unchanged / nonzero patched) and runs its property's check on it
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
v=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  s=$v/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$w/repo"; cp -a "$s" "$w/lay"; rm -f "$w/lay/patch.diff" "$w/lay/meta.json"
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd "$w/repo" && timeout 300 bash "$w/lay/demo.sh" >"$w/d0" 2>&1); r0=$?
  git -C "$w/repo" apply "$s/patch.diff" || { echo "$id NOAPPLY"; rm -rf "$w"; continue; }
  (cd "$w/repo" && go build ./... >"$w/b" 2>&1) || { echo "$id NOBUILD"; head -5 "$w/b"; rm -rf "$w"; continue; }
  (cd "$w/repo" && timeout 300 bash "$w/lay/demo.sh" >"$w/d1" 2>&1); r1=$?
  (cd "$w/repo" && go test -json -vet=off -count=1 -timeout 10m $(go list ./... | grep -vE '/(e2e|emerge/swarm)$') >"$w/t" 2>/dev/null)
  miss=$(python3 - "$w/t" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
m=sorted(b-ok); print(len(m), *m[:3])
P
)
  [ $r0 = 0 ] || tail -5 "$w/d0"; [ $r1 != 0 ] || tail -3 "$w/d1"
  [ -n "$NOCHECK" ] && { echo "$id demo $r0/$r1 stable-missing $miss"; rm -rf "$w"; continue; }
  out=$(VERIF_REPO="$w/repo" python3 "$v/check.py" "$p" --seed "${SEED:-1}" 2>&1); rc=$?
  echo "$id demo $r0/$r1 stable-missing $miss check $p rc=$rc $(echo "$out" | grep -E 'rejected|VIOLATION|CHECK-ERROR' | head -1 | cut -c1-160)"
  rm -rf "$w"
done
