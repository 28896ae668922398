#!/bin/bash
# Builds the simulator against /repo's working tree, and decides one property.
#
#   check.sh build | check.sh C01
#
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: an error.
set -u
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
target="$PWD/sim/target"
mkdir -p "$target"

# What is built follows the content of the files, whatever their times are.
state=$( { find /repo/src /repo/derive -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0
           find /repo -maxdepth 1 -name '*.toml' -print0
           find "$PWD/sim/src" "$PWD/sim/ops" "$PWD/sim/macros" "$PWD/sim/zones" -type f -print0
           find "$PWD/sim" -maxdepth 1 \( -name 'Cargo.*' -o -name wrap.sh \) -print0; } | sort -z | xargs -0 sha256sum | sha256sum )
if [ "$(cat "$target/.state" 2>/dev/null)" != "$state" ] || [ ! -x "$target/release/ikal-sim" ]; then
    rm -f "$target/.state"
    rebuild() {
        (cd sim && cargo clean --offline --release -p ikal -p ikal-derive -p ikal_ops -p ikal_macros -p ikal-sim) >"$target/clean.log" 2>&1
        (cd sim && cargo build --offline --release "$@") >"$target/build.log" 2>&1
    }
    # Without the instrumentation, or the invocations of macros (N01 then fails), if that is what fails.
    export RUSTC_WRAPPER="$PWD/sim/wrap.sh"
    if ! rebuild && ! RUSTC_WRAPPER= rebuild && ! rebuild --no-default-features && ! RUSTC_WRAPPER= rebuild --no-default-features; then
        tail -n 40 "$target/build.log" >&2
        echo "the simulator does not build" >&2
        exit 3
    fi
    echo "$state" >"$target/.state"
fi

[ "$1" = build ] && exit 0
exec "$target/release/ikal-sim" run "$1"
