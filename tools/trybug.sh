#!/bin/bash
# trybug.sh BUG PROP...: runs the checks of the properties (default: its own) on a scratch copy of /repo with a seeded change.
cd "$(dirname "$0")/.."
b=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
git clone -q /repo "$t/repo" && git -C "$t/repo" apply "$PWD/seeded/$b/patch.diff" || exit 2
for p in $props; do
  VERIF_REPO="$t/repo" VERIF_EVIDENCE="$t/ev" python3 bin/check.py $p > "$t/out" 2>&1; rc=$?
  echo "$b $p rc=$rc $(grep -a -c '^VIOLATION' "$t/out") $(grep -a -v '^\[' "$t/out" | head -1 | cut -c1-220)"
done
