#!/bin/bash
# seedrun.sh [-p "C01 C02"] <id>... : runs the checks of planted changes' properties (or those named) with each change
# applied. Works in a private mount namespace on copies of /repo and /verif, so that both stay as they are.
V=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "$SEEDRUN_INSIDE" ]; then
    C=$(mktemp -d /tmp/seedrun.XXXXXX) || exit 2
    trap 'rm -rf "$C"' EXIT
    cp -a /repo "$C/repo"; git -C "$C/repo" checkout -q -- .
    rsync -a --exclude .git "$V/" "$C/verif" 2>/dev/null || cp -a "$V" "$C/verif"
    SEEDRUN_INSIDE=$C unshare -m bash -c 'mount --bind "$SEEDRUN_INSIDE/repo" /repo && mount --bind "$SEEDRUN_INSIDE/verif" /verif && cd /verif && exec tools/seedrun.sh "$@"' x "$@"
    exit
fi
P=
if [ "$1" = -p ]; then P=$2; shift 2; fi
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
for id in "$@"; do
    git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    for p in ${P:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")}; do
        s=$(date +%s)
        out=$("$V/check.sh" "$p" quick 2>&1); rc=$?
        e=$(date +%s)
        if [ $rc = 1 ]; then w=caught; elif [ $rc = 0 ]; then w=MISSED; else w="NO ANSWER ($rc)"; fi
        echo "$id $p: $w $((e-s))s $(echo "$out" | grep -m1 -B1 'VIOLATION' | cut -c1-200 | tr '\n' ' ')"
        [ $rc -le 1 ] || echo "$out" | tail -n 5
    done
    git -C /repo checkout -q -- .
done
