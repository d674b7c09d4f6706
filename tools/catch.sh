#!/bin/bash
# usage: tools/catch.sh [ID...]: applies each planted bug to a scratch copy of the sources and runs its property's quick check
cd "$(dirname "$0")/.." || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  d=$(mktemp -d /tmp/catch.XXXXXX); cp -a "${MC_REPO:-/repo}" "$d/repo"
  git -C "$d/repo" checkout -q -- . ; git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || echo "$id: does not apply"
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  mkdir "$d/v"; cp -a mc check known_findings.json "$d/v/"
  out=$(MC_REPO=$d/repo "$d/v/check" "$p" quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c "^VIOLATION property=$p")"
  rm -rf -- "$d"
done
