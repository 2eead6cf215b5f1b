#!/bin/bash
# run.sh build | check ID [quick|thorough] | replay FILE | units ID
# Exit status: 0 the property held, 1 a violation was printed, anything else: no verdict.
cd "$(dirname "$0")" || exit 2
build() {
    export CARGO_NET_OFFLINE=true
    mkdir -p mc/target
    exec 9>mc/target/.lock
    flock 9
    # Cargo goes by modification times, which copies of the tree need not keep: go by contents.
    local h
    h=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64)
    h="$h $(find mc/src mc/Cargo.toml mc/Cargo.lock known_findings -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)"
    if [ "$(cat mc/target/.repo-hash 2>/dev/null)" != "$h" ]; then
        rm -f mc/target/.repo-hash
        find mc/target -maxdepth 3 -type d -path '*/.fingerprint/bytecodec-*' -exec rm -rf {} + 2>/dev/null
        find mc/target -maxdepth 3 -type d -path '*/.fingerprint/mc-*' -exec rm -rf {} + 2>/dev/null
    fi
    if ! (cd mc && cargo build --release --offline --locked -q) >mc/target/build.log 2>&1; then
        echo "BUILD FAILED" >&2
        grep -E -A12 '^error' mc/target/build.log | head -60 >&2
        exit 3
    fi
    echo "$h" >mc/target/.repo-hash
    exec 9>&-
}
case "$1" in
build) build ;;
check)
    build
    export VERIF_TIER="${3:-${VERIF_TIER:-quick}}" MC_OUT="$PWD/evidence"
    exec mc/target/release/mc check "$2"
    ;;
replay | units)
    build
    exec mc/target/release/mc "$@"
    ;;
*)
    echo "usage: run.sh build | check ID [quick|thorough] | replay FILE | units ID" >&2
    exit 2
    ;;
esac
