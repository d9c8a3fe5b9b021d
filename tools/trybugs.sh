#!/bin/bash
# run the check of each planted bug (or of the patch files given) against a scratch copy of /repo with the change applied;
# RUN="C01 C02" runs those checks instead of the bug's own, ARGS passes options to the check
here="$(cd "$(dirname "$0")/.." && pwd)"
tmp=$(mktemp -d /tmp/trybugs.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/verif"; cp -a "$here"/{check,vc,contracts,known_findings.json} "$tmp/verif/" 
for d in ${@:-$(ls "$here/seeded")}; do
  rm -rf "$tmp/repo"; cp -a /repo "$tmp/repo"
  if [ -f "$d" ]; then f="$d"; p=$RUN; else f="$here/seeded/$d/patch.diff"
    p=${RUN:-$(python3 -c "import json;print(json.load(open('$here/seeded/$d/meta.json'))['property'])")}; fi
  git -C "$tmp/repo" apply "$f" || { echo "$d: does not apply"; continue; }
  for c in $p; do
    o=$(cd "$tmp/verif" && VC_REPO="$tmp/repo" timeout 900 ./check $c $ARGS 2>&1); rc=$?
    echo "$d $c rc=$rc $(echo "$o" | grep VIOLATION | head -1 | cut -c1-100) $(echo "$o" | tail -1 | cut -c1-160)"
  done
done
