#!/bin/bash
# tools/mutate.sh <property> <file in repo> <sed expression>... : one mutant per expression, reports caught/missed and whether the unit tests see it
p=$1; f=$2; shift 2
for x in "$@"; do
  d=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo "$d/repo"
  sed -i -E "$x" "$d/repo/$f"
  if cmp -s "$d/repo/$f" "/repo/$f"; then echo "NOCHANGE $x"; rm -rf "$d"; continue; fi
  if ! (cd "$d/repo" && /opt/veriftools/go1.25.14/bin/go build ./... 2>/tmp/mut.err); then echo "NOBUILD $x"; head -3 /tmp/mut.err; rm -rf "$d"; continue; fi
  for q in ${p//,/ }; do
  out=$(VERIF_REPO="$d/repo" python3 "$(dirname "$0")/../check.py" "$q" --seed "${SEED:-1}" 2>&1); rc=$?
  echo "$q rc=$rc [$x] $(echo "$out" | grep -E 'rejected|CHECK-ERROR' | head -1 | cut -c1-150)"
  done
  rm -rf "$d"
done
