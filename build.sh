#!/bin/bash
# builds the harness against /repo's working tree; prints the path of the executable
set -u
V=$(cd "$(dirname "$0")" && pwd)
cd "$V/harness" || exit 2
export CARGO_NET_OFFLINE=true
log=$(mktemp)
# cargo notices changes by time stamp only: when the content differs from the last build, forget that build
sum=$(cd /repo && { find Cargo.toml Cargo.lock build.rs src -type f -print0; } 2>/dev/null | sort -z | (cd /repo && xargs -0 sha256sum) | sha256sum)
if [ "$(cat "$V/target/.stamp" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$V"/target/debug/.fingerprint/beancount-parser-lima-* "$V"/target/plain/debug/.fingerprint/beancount-parser-lima-*
  mkdir -p "$V/target"
fi
# the new trait solver compiles the parser combinators several times faster; if it ever fails, build as usual
if RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Znext-solver=globally" CARGO_TARGET_DIR="$V/target" cargo build --offline >"$log" 2>&1; then
  rm -f "$log"; echo "$sum" >"$V/target/.stamp"; echo "$V/target/debug/vh"; exit 0
fi
if CARGO_TARGET_DIR="$V/target/plain" cargo build --offline >"$log" 2>&1; then
  rm -f "$log"; echo "$sum" >"$V/target/.stamp"; echo "$V/target/plain/debug/vh"; exit 0
fi
cat "$log" >&2; rm -f "$log"
echo "ERROR (no answer): the harness does not build against /repo" >&2
exit 2
