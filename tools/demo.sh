#!/bin/bash
# run with cwd = the repository: exit 0 if it behaves, 1 if not
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sieve-rs = { path = "$repo" }
X
for l in /opt/vp/Cargo.lock "$repo/Cargo.lock"; do [ -f "$l" ] && cp "$l" "$t/Cargo.lock" && break; done
cd "$t" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>"$t/err" || { tail -20 "$t/err"; exit 3; }
timeout 60 "$t/target/debug/demo"
