#!/bin/bash
# build.sh: builds the simulator, and with it /repo's working tree, into sim/target. Offline.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=$here/sim/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cd "$here/sim" || exit 3
mkdir -p target
exec 9>target/build.lock
flock 9
# Cargo decides by mtime, which misses a file put back with an old one.
rm -rf "$here"/sim/target/debug/.fingerprint/{owned_subslice,socket-io-client,socket-io-protocol}-*
log=target/build.log
for features in "" "--no-default-features"; do
    # shellcheck disable=SC2086
    cargo build --offline $features >$log 2>&1 && exit 0
done
# Without the lock hook nothing is lost but scheduling points; if that does not build either, say why.
grep -E "^error" -A12 $log | head -60
exit 3
