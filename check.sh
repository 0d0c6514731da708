#!/bin/bash
# usage: check.sh ID TIER | check.sh replay FILE | check.sh build
# Builds the harness against /repo's current working tree and runs one check.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/.build CARGO_INCREMENTAL=0 RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET
cd /verif/harness || exit 2
bin_of() {
    case "$1" in
        A*) echo arith ;;
        S*) echo strs ;;
        U*) echo upd ;;
        P*) echo pred ;;
        *) echo "unknown check $1" >&2; exit 2 ;;
    esac
}
build() { # stdout quiet, errors shown
    cargo build --offline -q "$@" 1>&2 || { echo "build failed" >&2; exit 3; }
}
case "$1" in
    build) build --bins ;;
    replay)
        id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
        b=$(bin_of "$id"); build --bin "$b"
        exec /verif/.build/debug/"$b" replay "$2" ;;
    *)
        b=$(bin_of "$1") || exit 2
        build --bins
        exec /verif/.build/debug/"$b" run "$1" "${2:-quick}" ;;
esac
