#!/bin/bash
# run_seeds.sh [ID...]: runs the quick check of each planted change's property against a copy of /repo
# with the change applied, in a mount namespace of its own (so /repo and /verif stay as they are), and
# prints "ID PROPERTY rc SECONDS HARNESS: what failed".  Not used by any check.
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
[ $# -gt 0 ] || set -- $(ls /verif/seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  rm -rf "$tmp/repo" "$tmp/verif"
  git clone -q /repo "$tmp/repo" && git clone -q /verif "$tmp/verif" || exit 2
  git -C "$tmp/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id $p does not apply"; continue; }
  s=$(date +%s)
  unshare -m bash -c "mount --bind '$tmp/repo' /repo && mount --bind '$tmp/verif' /verif && cd /verif && timeout 900 bash check.sh $p quick" > "$tmp/log" 2>&1
  rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -A1 -m1 '^VIOLATION' "$tmp/log" | tail -1 | sed 's/^ *//' | cut -c1-110)"
done
