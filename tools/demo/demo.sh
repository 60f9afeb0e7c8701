#!/bin/bash
# builds main.rs (and what lies beside it) against /repo in a scratch folder and runs it there
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/run"; cp "$here"/*.rs "$t/src/"; cp /repo/Cargo.lock "$t/"
cat > "$t/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
wz_reader = { path = "/repo", features = ["json"] }
aes = "0.8.4"
flate2 = { version = "1.1.4", default-features = false, features = ["zlib-ng"] }
c2-chacha = "0.3.3"
serde_json = "1"
image = { version = "0.25.0", default-features = false }
libc = "0.2"
T
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build -q --offline 2>"$t/log" || { tail -30 "$t/log"; exit 2; }
cd "$t/run" && timeout 120 "$t/target/debug/demo"
