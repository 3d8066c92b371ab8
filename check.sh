#!/bin/bash
# bash check.sh <ID> [quick|thorough]           run the monitors of one property
# bash check.sh --replay <ID> <part> <idx> [seed] run one case again, verbosely
# Rebuilds the harness from /repo's working tree. Exit 0 held, 1 violated, 2 no verdict.
cd "$(dirname "$0")" || exit 2
V=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
log=$(mktemp /tmp/wpmon-build.XXXXXX)
if ! cargo build --release --offline --manifest-path "$V/harness/Cargo.toml" >"$log" 2>&1; then
    echo "the harness does not build against /repo:" >&2
    grep -E '^error' -A 12 "$log" | head -60 >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
BIN=$V/harness/target/release/wpmon
if [ "$1" = "--replay" ]; then
    exec "$BIN" only "$2" "$3" "$4" --seed "${5:-1}"
fi
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
if [ "$ID" = C27 ] || [ "$ID" = C29 ]; then
    # sanitizer builds of the same workloads; what they report is merged below
    stage=$(mktemp /tmp/wpmon-stage.XXXXXX)
    python3 tools/stage.py "$ID" "$TIER" "$SEED" "$stage"
    "$BIN" run "$ID" --tier "$TIER" --seed "$SEED" --verif "$V" --stage "$stage"
    rc=$?
    rm -f "$stage"
    exit $rc
fi
# the quick tier of the cheap monitors goes further than their base counts
SCALE=1
if [ "$TIER" = quick ]; then
    case $ID in
    C05 | C12 | C13 | C28) SCALE=1 ;;
    C17 | C18 | C26) SCALE=2 ;;
    C01 | C03 | C06 | C19) SCALE=3 ;;
    *) SCALE=5 ;;
    esac
fi
exec "$BIN" run "$ID" --tier "$TIER" --seed "$SEED" --scale "$SCALE" --verif "$V"
