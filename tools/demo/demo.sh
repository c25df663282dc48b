#!/bin/bash
# Builds demo.rs against /repo in a scratch directory and runs it. cwd: /repo
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp /opt/vp/Cargo.lock.fieldx "$t/Cargo.lock" 2>/dev/null || cp /repo/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fieldx = { path = "/repo/fieldx", features = ["sync", "async", "serde"] }
parking_lot = "0.12"
tokio = { version = "1.39", features = ["full"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[patch.crates-io]
fieldx = { path = "/repo/fieldx" }
fieldx_aux = { path = "/repo/fieldx_aux" }
fieldx_derive = { path = "/repo/fieldx_derive" }
fieldx_derive_support = { path = "/repo/fieldx_derive_support" }
T
cd "$t" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 cargo build --offline -q || exit 3
timeout 100 "$t/target/debug/demo"
