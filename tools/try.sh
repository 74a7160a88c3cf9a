#!/bin/bash
# developer helper: try.sh PATCH ID...   apply a patch to /repo, run checks, undo it.
p="$(readlink -f "$1")"; shift
git -C /repo apply "$p" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
    t0=$(date +%s)
    out=$(cd /verif && timeout 900 ./run.sh $id 2>&1); rc=$?
    echo "$id rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -v '^case' | tail -3 | cut -c1-300 | tr '\n' '|')"
done
