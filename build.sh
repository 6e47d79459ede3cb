#!/bin/bash
# Builds the harness and the ludtwig binary from /repo's working tree into /verif/target.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
R=${VH_REPO:-/repo}
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$V/target
export CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16
export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
export CARGO_PROFILE_RELEASE_PANIC=unwind CARGO_PROFILE_RELEASE_STRIP=none
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$V/target"
# Cargo decides by modification times; decide by content as well, so that a tree put back with old
# times is rebuilt.
sum=$(cd "$R" && find crates Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha1sum | sha1sum | cut -c1-40)
exec 9>"$V/target/.lock"
flock 9
if [ "$(cat "$V/target/.stamp" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$V"/target/release/.fingerprint/ludtwig-* "$V"/target/release/.fingerprint/vh-*
  rm -f "$V/target/.stamp"
fi
(cd "$R" && cargo build --release --locked --offline -p ludtwig --bin ludtwig) || exit 4
(cd "$V/harness" && CARGO_PROFILE_RELEASE_OPT_LEVEL=2 cargo build --release --locked --offline) || exit 4
echo "$sum" > "$V/target/.stamp"
