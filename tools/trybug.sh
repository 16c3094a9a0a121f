#!/bin/bash
# tools/trybug.sh <patch file or -R commit> <property>...  : run checks against a scratch copy of /repo with a change
set -e
d=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a /repo "$d/repo"
if [ "$1" = -R ]; then git -C /repo show "$2" | git -C "$d/repo" apply -R || { echo "cannot revert"; rm -rf "$d"; exit 3; }; shift 2
else git -C "$d/repo" apply "$(realpath "$1")"; shift; fi
for p in "$@"; do VERIF_REPO="$d/repo" python3 "$(dirname "$0")/../check.py" "$p" --tier "${TIER:-quick}" --seed "${SEED:-1}" 2>&1 | tail -${LINES_:-5}; done
rm -rf "$d"
