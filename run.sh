#!/bin/bash
# usage: run.sh PROPERTY quick|thorough    Decides one property for /repo's working tree
#        run.sh build                      Builds all harnesses
#        run.sh replay FILE                Repeats the execution of a violation
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

build() { # codec, broker, or plain: the broker without the encrypted transport
    local crate=$1 dir="$ROOT/target/$1" log="$ROOT/target/$1.log" args=""
    [ $crate = plain ] && crate=broker && args=--no-default-features
    mkdir -p "$dir"
    (
        flock 9
        # cargo judges by time stamps; the contents are what counts
        sum=$(cd / && find "/repo/packet" "/repo/server-lib" "/repo/Cargo.toml" "/repo/Cargo.lock" "$ROOT/$crate" "$ROOT/vendor" \
            -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
        if [ "$sum" != "$(cat "$dir/.stamp" 2>/dev/null)" ]; then
            (cd "$ROOT/$crate" && CARGO_TARGET_DIR="$dir" cargo clean --release -p apiformes-packet -p "mc-$crate" >/dev/null 2>&1
             [ "$crate" = broker ] && CARGO_TARGET_DIR="$dir" cargo clean --release -p apiformes-server-lib -p tokio >/dev/null 2>&1)
        fi
        (cd "$ROOT/$crate" && CARGO_TARGET_DIR="$dir" cargo build --release --offline $args >"$log" 2>&1) || exit 1
        echo "$sum" > "$dir/.stamp"
    ) 9> "$dir.lock"
    if [ $? -ne 0 ]; then
        echo "the harness $crate does not build:" >&2
        grep -A12 '^error' "$log" >&2
        exit 2
    fi
}
crate_of() { case "$1" in P*) echo codec ;; B23) echo plain ;; *) echo broker ;; esac; }

mkdir -p "$ROOT/target"
case "${1:-}" in
    build) for c in codec broker plain; do build $c; done; exit 0 ;;
    replay)
        p=$(sed -n 's/^property //p' "$2"); c=$(crate_of "$p"); build $c
        exec "$ROOT/target/$c/release/mc-${c/plain/broker}" replay "$2" ;;
    [BTP][0-9][0-9])
        c=$(crate_of "$1"); build $c
        exec "$ROOT/target/$c/release/mc-${c/plain/broker}" check "$1" "${2:-quick}" "$ROOT" ;;
    *) sed -n '2,4p' "$0" >&2; exit 2 ;;
esac
