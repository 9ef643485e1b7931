#!/bin/bash
# Builds /verif/sim against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
# The crate predates a lint that newer compilers deny.
export RUSTFLAGS="--cap-lints warn"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUST_BACKTRACE CARGO_INCREMENTAL
cd "$here/sim" || exit 2
exec 9>"$here/sim/.build.lock"
flock 9
# cargo goes by mtimes; go by content instead.
stamp=target/repo.stamp
now=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum)
if [ "$(cat $stamp 2>/dev/null)" != "$now" ]; then
    rm -rf target/release/.fingerprint/serde_yaml-*
fi
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
    awk '/^error/{f=1} /^warning/{f=0} f' "$log" | tail -n 60
    rm -f "$log"
    echo "BUILD FAILED"
    exit 2
fi
rm -f "$log"
mkdir -p target && echo "$now" > $stamp
