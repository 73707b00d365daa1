#!/bin/bash
# revert.sh <commit> <check...>: runs checks against a scratch copy of /repo in
# which one fix commit is reverted (development aid)
c=$1; shift
d=/tmp/rv-$c; rm -rf "$d"; git -C /repo worktree add -f --detach "$d" HEAD >/dev/null 2>&1 || exit 9
git -C "$d" revert -n $c >/dev/null 2>&1 || { echo "$c: cannot revert"; git -C /repo worktree remove --force "$d"; exit 9; }
export VERIF_REPO="$d" VERIF_WORK="$d/.vw" VERIF_EVIDENCE="$d/.ev"
for k in "$@"; do
  cd /verif && timeout 900 python3 check.py $k quick > "$d/.out" 2>&1; rc=$?
  echo "$c $k rc=$rc $(grep -E 'VIOLATION|ERROR' "$d/.out" | head -1)"; grep '^  ' "$d/.out" | head -${N:-1} | cut -c1-${W:-500}
done
git -C /repo worktree remove --force "$d"
