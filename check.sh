#!/bin/bash
# check.sh <property> [--replay FILE]
# Builds the monitor of one property against /repo's current tree and runs it.
# exit 0: held on everything observed; 1: VIOLATION; 2: no verdict.
set -u
cd "$(dirname "$0")" || exit 2
export H3MON_VERIF="$PWD"
id=$1
shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
[ -f "harness/src/bin/$bin.rs" ] || { echo "no such check: $id"; exit 2; }
export CARGO_TARGET_DIR="$PWD/.build" CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
mkdir -p .build evidence
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

# Cargo decides by modification time whether to rebuild; a tree that was
# swapped underneath can carry old times, so compare contents as well.
build() { # label, cargo arguments...
    local label=$1; shift
    local now
    now=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-40)
    exec 9>".build/.lock"
    flock 9
    if [ "$(cat ".build/.tree-$label" 2>/dev/null)" != "$now" ]; then
        local sel=(--profile mon)
        case $label in
            release) sel=(--release) ;;
            address | thread) sel=(--profile mon --target x86_64-unknown-linux-gnu) ;;
            miri) sel=(--profile dev --target x86_64-unknown-linux-gnu --target-dir "$CARGO_TARGET_DIR/miri") ;;
        esac
        (cd harness && cargo clean --offline -p h3-rs "${sel[@]}") >/dev/null 2>&1
    fi
    local log=".build/build-$label.log"
    if ! (cd harness && "$@") >"$log" 2>&1; then
        grep -E '^error' -A6 "$log" | head -40
        echo "INCONCLUSIVE $id: the tree does not build ($label)"
        exit 2
    fi
    echo "$now" >".build/.tree-$label"
    flock -u 9
}

build mon cargo build --offline --profile mon --bin "$bin"
if [ "$id" = C20 ]; then
    build release cargo build --offline --release --bin "$bin"
    export H3MON_RELEASE="$CARGO_TARGET_DIR/release/$bin"
fi
exe="$CARGO_TARGET_DIR/mon/$bin"
if [ "$id" = C39 ]; then
    . ./sanitizers.sh
    machines_build || exit $?
fi
[ $# -gt 0 ] && exec "$exe" "$@"

"$exe"
rc=$?
[ $rc -eq 0 ] || exit $rc

. ./sanitizers.sh
case "$id" in
    C19)
        san_run address || exit $?
        [ "$VERIF_TIER" = thorough ] && { miri_run || exit $?; }
        ;;
    C20) san_run thread || exit $? ;;
esac
exit 0
