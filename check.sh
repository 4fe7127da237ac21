#!/bin/bash
# check.sh <property id> [quick|thorough]   run a check
# check.sh replay <file>                    re-run one case
# check.sh build                            build everything (setup)
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR=$VERIF/target
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export VERIF_SEED=${VERIF_SEED:-1}
LOG=$VERIF/target/log; mkdir -p "$LOG"

build() { # the feature `plain` uses a form that did not compile once: without it, C01 still builds and reports that
    try "$@" || try --no-default-features "$@" && return
    echo "ERROR: build failed"; tail -n 60 "$LOG/release.log" "$LOG/checked.log"; exit 2
}
try() { # try <cargo args>: release and checked in parallel
    # cargo judges by mtime; forget its verdict on the package under test so that its current text is always built
    rm -rf "$VERIF"/target/release/.fingerprint/flatdata-* "$VERIF"/target/checked/.fingerprint/flatdata-*
    # build scripts run per profile; each profile has its own directory and lock
    (cd harness && cargo build --offline --locked --profile checked "$@" >"$LOG/checked.log" 2>&1) &
    local pid=$!
    (cd harness && cargo build --offline --locked --release "$@" >"$LOG/release.log" 2>&1); local a=$?
    wait $pid; local b=$?
    [ $a -eq 0 ] && [ $b -eq 0 ]
}
MACHINES="s390x-unknown-linux-gnu powerpc-unknown-linux-gnu" # see FOREIGN in harness/src/runner.rs
miri() { # miri <bin>: makes its program for other machines ready, in the background; $FC_SCRATCH/miri-<target> tells
    export FC_MIRI=$VERIF/miri.sh
    local t
    for t in $MACHINES; do
        (
            rm -rf "$VERIF/target/miri-$t/miri/$t"/*/build/flatdata # (where nightly's cargo keeps a package's fingerprints)
            timeout -k 5 280 "$FC_MIRI" "$t" "$1" nothing >"$LOG/miri-$t.log" 2>&1 </dev/null && r=ok || r=failed
            [ -d "$FC_SCRATCH" ] && echo $r >"$FC_SCRATCH/miri-$t"
        ) &
    done
}
scratch() {
    BASE=/dev/shm; [ -d $BASE ] && [ -w $BASE ] || BASE=/tmp
    FC_SCRATCH=$(mktemp -d "$BASE/flatcheck.XXXXXX") || exit 2
    export FC_SCRATCH FC_VERIF=$VERIF
    trap 'kill $(jobs -p) 2>/dev/null; chmod -R u+rwx "$FC_SCRATCH" 2>/dev/null; rm -rf "$FC_SCRATCH"' EXIT
}
if [ "$1" = build ]; then build --bins; exit 0; fi

if [ "$1" = replay ]; then
    FILE=$(realpath -- "$2") || exit 2
    read -r ID PROFILE SEED < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["property"], d["profile"], d["seed"])' "$FILE")
    export VERIF_SEED=$SEED
    BIN=$(echo "$ID" | tr A-Z a-z)
    case " $MACHINES " in *" $PROFILE "*) scratch; miri "$BIN"; PROFILE=release ;; esac
    build --bin "$BIN"
    "target/$PROFILE/$BIN" replay "$FILE"
    exit $?
fi

ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
BIN=$(echo "$ID" | tr A-Z a-z)
scratch
case $ID in C01 | C02 | C10) miri "$BIN" ;; esac
build --bin "$BIN"
"target/release/$BIN" driver "$TIER" "$VERIF/target/checked/$BIN"
exit $?
