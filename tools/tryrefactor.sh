#!/bin/bash
# tryrefactor.sh [DIFF...]: applies edits that change no behaviour (default: refactors/*.diff) to a scratch copy of /repo and runs every
# quick check on it: all of them must stay quiet.
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/refactor.XXXXXX)
for d in "${@:-$V/refactors/r1.diff}"; do
  cp -a /repo "$W/r" && git -C "$W/r" apply "$d" || exit 2
  for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14; do
    VERIF_REPO="$W/r" VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 -B "$V/check.py" $p quick > "$W/out" 2>&1; rc=$?
    echo "$(basename "$d") $p rc=$rc"; [ $rc = 0 ] || tail -30 "$W/out"
  done
  rm -rf "$W/r"
done
rm -rf "$W"
