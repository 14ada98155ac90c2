#!/bin/bash
# Compiles the built tree (a scratch copy) with demo.rs appended to one source file, and runs the test in it.
# Everything is written below a scratch directory that is removed at the end.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/demo.conf"   # PKG, FILE
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$S"' EXIT
cp -a /opt/vp/work/ws "$S/ws" && mkdir -p "$S/target/debug" || exit 3
for d in build deps .fingerprint; do cp -a "/opt/vp/work/target/debug/$d" "$S/target/debug/$d" || exit 3; done
printf '\n#[cfg(test)]\n#[path = "%s"]\nmod planted_demo;\n' "$HERE/demo.rs" >> "$S/ws/$FILE"
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-12-15 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never \
  CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$S/target" RUSTC_WRAPPER= INSTA_UPDATE=no
unset RUSTFLAGS
cd "$S/ws" || exit 3
timeout 280 cargo test -p "$PKG" --lib --offline -- planted_demo --nocapture > "$S/log" 2>&1
rc=$?
grep -E "^(test |DEMO|thread|assertion)|panicked|error" "$S/log" | tail -20
grep -q "test result: ok. [1-9]" "$S/log" || { tail -30 "$S/log"; exit 1; }
exit $rc
