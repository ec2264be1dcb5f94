#!/bin/bash
# Usage: check.sh setup | run PROPERTY | replay FILE
#
# Builds what the check needs from /repo's working tree, then runs it. Exit 0: held. Exit 1 and a
# VIOLATION line: violated. Exit 2: no verdict (does not build, or an error of the check itself).
cd "$(dirname "$(realpath "$0")")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE
B=$PWD/build
mkdir -p "$B" evidence replays

# cargo goes by modification times; a restored or patched tree may have misleading ones
stamp() { # NAME CLEAN-COMMAND...
    local name=$1 now
    shift
    now=$(cd /repo && find Cargo.toml Cargo.lock noodle noodle-cli noodle-webapp/src noodle-webapp/Cargo.toml -type f -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$B/$name.stamp" 2>/dev/null)" != "$now" ]; then
        rm -f "$B/$name.stamp"
        "$@" >/dev/null 2>&1
    fi
    STAMP=$now
}

quietly() { # LOG COMMAND...
    local log=$1
    shift
    if ! "$@" >"$log" 2>&1; then
        tail -n 40 "$log"
        echo "inconclusive: the build failed: $*"
        exit 2
    fi
}

build_engine() {
    export CARGO_TARGET_DIR=$B/target
    stamp engine cargo clean --manifest-path harness/Cargo.toml -p noodle
    quietly "$B/engine.log" cargo build --manifest-path harness/Cargo.toml --offline
    echo "$STAMP" >"$B/engine.stamp"
    unset CARGO_TARGET_DIR
}

# Without debug assertions, which would end a call before the access that they warn of: what is
# watched is what a release does (-Zub-checks: the preconditions of get_unchecked and the like)
as_released() {
    export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false
}

build_asan() {
    export CARGO_TARGET_DIR=$B/asan RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes -Zub-checks=yes"
    as_released
    stamp asan cargo +nightly clean --manifest-path harness/Cargo.toml --target x86_64-unknown-linux-gnu -p noodle
    quietly "$B/asan.log" cargo +nightly build --manifest-path harness/Cargo.toml --offline \
        --target x86_64-unknown-linux-gnu --features asan
    echo "$STAMP" >"$B/asan.stamp"
    unset CARGO_TARGET_DIR RUSTFLAGS CARGO_PROFILE_DEV_DEBUG_ASSERTIONS CARGO_PROFILE_DEV_OVERFLOW_CHECKS
}

build_miri() {
    as_released
    stamp miri cargo +nightly clean --manifest-path harness/Cargo.toml --target-dir "$B/miri" -p noodle
    quietly "$B/miri.log" cargo +nightly miri run --offline --manifest-path harness/Cargo.toml \
        --target-dir "$B/miri" -- version
    echo "$STAMP" >"$B/miri.stamp"
    unset CARGO_PROFILE_DEV_DEBUG_ASSERTIONS CARGO_PROFILE_DEV_OVERFLOW_CHECKS
}

# The programs themselves, with debug assertions on
build_programs() {
    export CARGO_TARGET_DIR=$B/programs
    export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_INCREMENTAL=false
    stamp programs cargo clean --manifest-path /repo/Cargo.toml -p noodle -p noodle-cli -p noodle-webapp
    quietly "$B/programs.log" cargo build --manifest-path /repo/Cargo.toml --offline --locked \
        -p noodle-cli -p noodle-webapp
    echo "$STAMP" >"$B/programs.stamp"
    unset CARGO_TARGET_DIR CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_INCREMENTAL
}

case "$1" in
setup)
    build_engine
    build_asan
    build_miri
    build_programs
    ;;
run)
    case "$2" in
    C15) build_asan; build_miri; build_engine ;;
    C17 | C18 | C19 | C23) build_engine; build_programs ;;
    *) build_engine ;;
    esac
    exec "$B/target/debug/ncheck" run "$2"
    ;;
replay)
    build_engine
    if grep -q '"property": "C15"' "$2"; then build_asan; build_miri; fi
    if grep -qE '"property": "C(1[789]|23)"' "$2"; then build_programs; fi
    exec "$B/target/debug/ncheck" replay "$2"
    ;;
*)
    echo "usage: check.sh setup | run PROPERTY | replay FILE"
    exit 2
    ;;
esac
