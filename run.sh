#!/bin/bash
# Usage: run.sh ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] ...
# Builds the check from /repo's working tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=${1:?property id}
bin= profile=release manifest=
case "$id" in
C01 | C02 | C10 | C11 | C15 | C16 | C17) bin=vapi ;;
C03) bin=vlex profile=depth ;;
C04 | C06 | C09 | C14 | C22) bin=vlex ;;
C05 | C07 | C08 | C12 | C13 | C18) bin=vast ;;
C19) bin=vsum ;;
C20) bin=vcost profile=depth ;;
C21) bin=vside manifest=plain/ ;;
build) ;;
*) echo "no such check: $id" >&2; exit 2 ;;
esac
export VERIF_DIR=$here VERIF_REPO=$repo
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
mkdir -p "$here/.build" "$here/evidence"
exec 9>"$here/.build/.lock"
flock 9
# cargo goes by modification times; a source tree put in place with old times must not go unnoticed
sum=$(cd "$repo" && find Cargo.toml build.rs src -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
log=$here/.build/.log
# build MANIFEST-DIR PROFILE [BIN]
build() {
    if [ -n "$1" ]; then
        export CARGO_TARGET_DIR=$here/.build/plain
        unset RUSTC_WRAPPER
    else
        export CARGO_TARGET_DIR=$here/.build RUSTC_WRAPPER=$here/tools/instrument.sh
    fi
    out=$CARGO_TARGET_DIR/$2
    if [ "$sum" != "$(cat "$out/.sources" 2>/dev/null)" ]; then
        for d in "$out"/.fingerprint/scilla-parser-*; do
            [ -d "$d" ] && rm -rf "$d"
        done
    fi
    if ! (cd "$here/harness/$1" && cargo build --offline --profile "$2" ${3:+--bin "$3"}) >"$log" 2>&1; then
        cat "$log" >&2
        echo "the harness does not build" >&2
        exit 2
    fi
    echo "$sum" >"$out/.sources"
}
if [ -z "$bin" ]; then
    build "" release
    build "" depth vlex
    build "" depth vcost
    build plain/ release
    exit 0
fi
build "$manifest" "$profile" "$bin"
flock -u 9
exec 9>&-
cd "$here" || exit 2
exec "$out/$bin" "$@"
