#!/bin/bash
# seedcheck.sh <id>... : confirms planted changes in a scratch copy of /repo: the patch applies, it builds, the
# repository's stable tests pass, and demo.sh exits 0 without it and nonzero with it.
SEEDED=$(cd "$(dirname "$0")/../seeded" && pwd)
[ $# -gt 0 ] || set -- $(ls "$SEEDED")
W=$(mktemp -d /tmp/seedcheck.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= TMPDIR=$W/tmp
mkdir "$W/tmp"
FLAGS="-A bare_trait_objects -A deprecated -A mismatched_lifetime_syntaxes -A unused_doc_comments"
stable() {
    (cd "$W/repo" && RUSTFLAGS="$FLAGS" RUSTDOCFLAGS="$FLAGS" CARGO_TARGET_DIR=$W/repo/target timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 8) >"$W/log" 2>&1
    grep -E '^test result' "$W/log" | awk '{p+=$4; f+=$6} END {printf "%d passed %d failed", p, f}'
}
for id in "$@"; do
    d=$SEEDED/$id
    rm -rf "$W/demo"; mkdir "$W/demo"; (cd "$d" && cp -a -- * "$W/demo/"); rm -f "$W"/demo/*.diff "$W"/demo/meta.json
    git -C "$W/repo" checkout -q -- .
    if [ -z "$FAST" ]; then (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/clean.log" 2>&1); a=$?; else a=-; fi
    git -C "$W/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    t=$(stable)
    (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/patched.log" 2>&1); b=$?
    echo "$id: clean $a, patched $b, tests: $t"
    [ "$a" = 0 ] || [ "$a" = - ] || tail -n 20 "$W/clean.log"
    [ $b -ne 0 ] || tail -n 5 "$W/patched.log"
    grep -q "^error" "$W/patched.log" && { echo "   DEMO DOES NOT COMPILE"; grep -A6 "^error" "$W/patched.log" | head -30; }
    grep -q "^test result" "$W/log" || grep -A6 "^error" "$W/log" | head -30
done
