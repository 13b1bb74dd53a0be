#!/bin/bash
# trybug.sh BUGID [PROP...] : run the property's check against the planted bug on a scratch copy
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
b=$1; shift
T=$(mktemp -d /tmp/vp-try.XXXX)
git clone -q /repo "$T/repo"
git -C "$T/repo" apply "$V/seeded/$b/patch.diff" || { echo "patch does not apply"; exit 3; }
ps=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$b/meta.json'))['property'])")}
for p in $ps; do
  cp "$V/evidence/$p.json" "$T/ev.json" 2>/dev/null
  VP_REPO="$T/repo" "$V/bin/check" "$p" > "$T/out" 2>&1; rc=$?
  echo "== $b $p rc=$rc"; cut -c1-400 "$T/out" | tail -${TAIL:-6}
  cp "$T/ev.json" "$V/evidence/$p.json" 2>/dev/null
done
rm -rf "$T"
