#!/bin/bash
# Runs demo.rs as a test module inside a scratch copy of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER=
mkdir "$w/r" && cp -a Cargo.toml Cargo.lock README.md sorock tests tools "$w/r/" || exit 2
d="$w/r/sorock/src/process/raft_process"
mkdir "$d/demo"
cp "$here/demo.rs" "$d/demo/mod.rs" && cp "$here/support.rs" "$d/demo/support.rs" || exit 2
echo '#[cfg(test)] mod demo;' >> "$d/mod.rs"
cd "$w/r" || exit 2
CARGO_TARGET_DIR="$w/target" cargo test --offline -p sorock --lib -- raft_process::demo --nocapture 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
