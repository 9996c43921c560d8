#!/bin/bash
# check.sh setup        build everything for the current /repo tree
# check.sh ID           check one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE  run one replay file again
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 error of the check.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
V=$PWD

# The build products are kept under a hash of all sources (content, not times).
hash=$( { find /repo \( -path /repo/.git -o -path /repo/target \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
          find "$V/harness" -path "$V/harness/target" -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
          rustc --version; } | sha256sum | cut -c1-16) || exit 2
mkdir -p "$V/target" "$V/evidence" "$V/replays" || exit 2
T=$V/target/$hash

# build WHAT: once per hash; a stamp marks a finished build
build() {
    [ -e "$T/$1.done" ] && return 0
    (
        flock 9
        [ -e "$T/$1.done" ] && exit 0
        mkdir -p "$T"
        # keep this build and the two latest others
        ls -1dt "$V"/target/*/ 2>/dev/null | grep -vF "$T/" | tail -n +3 | while read -r d; do
            case $d in "$V"/target/?*) rm -rf -- "$d" ;; esac
        done
        case $1 in
        harness) RUSTC_WRAPPER=$V/harness/rustc-cov.sh cargo build --release --offline --manifest-path "$V/harness/Cargo.toml" --target-dir "$T/harness" ;;
        decoder) # built from a copy, as cargo may write Cargo.lock beside the manifest
            rm -rf -- "$T/src" && mkdir -p "$T/src" &&
            tar -C /repo --exclude=./.git --exclude=./target -cf - . | tar -C "$T/src" -xf - &&
            cargo build --offline --manifest-path "$T/src/Cargo.toml" -p decoder --target-dir "$T/decoder" ;;
        esac >"$T/$1.log" 2>&1 || { cat "$T/$1.log"; exit 1; }
        touch "$T/$1.done"
    ) 9>"$V/target/.lock"
}
fail() { echo "check.sh: building the $1 failed" >&2; exit 2; }

BIN=$T/harness/release/rxprop
export RXPROP_OUT=$V RXPROP_DECODER=$T/decoder/debug/decoder
case ${1-} in
setup)
    build harness || fail harness
    build decoder || fail decoder ;;
replay)
    build harness || fail harness
    build decoder || fail decoder
    exec "$BIN" replay "$2" ;;
C??)
    build harness || fail harness
    [ "$1" = C21 ] && { build decoder || fail decoder; }
    "$BIN" check "$1"
    exit $? ;;
*)
    echo "usage: check.sh setup | C01..C27 | replay FILE" >&2
    exit 2 ;;
esac
