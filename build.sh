#!/bin/bash
# Builds the harness and the mutagenyx binary from /repo's working tree into /verif/.build.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET_DIR
B=$V/.build
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
now=$( (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
        cd "$V/harness" && find . -path ./target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$now" = "$(cat "$B/stamp" 2>/dev/null)" ] && [ -x "$B/harness/release/harness" ] && [ -x "$B/cli/debug/mutagenyx" ]; then
    exit 0
fi
rm -f "$B/stamp"
# cargo decides by mtime what to rebuild; content changed, so touch the crate roots
find /repo/mutagenyx /repo/mutagenyx_lib "$V/harness/src" \( -name lib.rs -o -name main.rs \) -exec touch {} +
[ -f /repo/Cargo.lock ] || cp "$V/tools/repo-Cargo.lock" /repo/Cargo.lock
(
    cd /repo && CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 \
        cargo build --offline -p mutagenyx --target-dir "$B/cli" >"$B/cli.log" 2>&1
) &
cli=$!
cd "$V/harness" && cargo build --offline --locked --release --target-dir "$B/harness" >"$B/harness.log" 2>&1
h=$?
wait $cli
c=$?
if [ $h -ne 0 ] || [ $c -ne 0 ]; then
    tail -40 "$B/harness.log" "$B/cli.log"
    echo "build failed"
    exit 3
fi
echo "$now" >"$B/stamp"
