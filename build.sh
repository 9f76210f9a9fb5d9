#!/bin/bash
# build.sh PROFILE: builds the simulator (and claxon from /repo's working tree).
set -u
here=$(cd "$(dirname "$0")" && pwd)
profile=${1:-release}
[ -f /root/.cargo/env ] && . /root/.cargo/env
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$here/sim/target" RUSTFLAGS="-Awarnings"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.check-lock"
flock 9
# Rebuild by content, not only by time stamp.
sum=$(cat "$here/build.sh" "$here/sim/steps.c" /repo/Cargo.toml $(find /repo/src -type f | sort) | sha256sum)
stamp="$CARGO_TARGET_DIR/.repo-$profile"
cd "$here/sim" || exit 2
if [ "$profile" = stepped ]; then
    # Every basic block, load and store calls the step counter.
    cc -O2 -fPIC -c steps.c -o "$CARGO_TARGET_DIR/steps.o" || exit 2
    RUSTFLAGS="$RUSTFLAGS --cfg dst_steps -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Clink-arg=$CARGO_TARGET_DIR/steps.o"
fi
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -f "$stamp"
    cargo clean --offline --profile "$profile" -p claxon >/dev/null 2>&1
fi
if ! cargo build --offline --locked --profile "$profile" >"$CARGO_TARGET_DIR/build-$profile.log" 2>&1; then
    tail -n 40 "$CARGO_TARGET_DIR/build-$profile.log" >&2
    echo "build of the simulator failed" >&2
    exit 2
fi
echo "$sum" > "$stamp"
exit 0
