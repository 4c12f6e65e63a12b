#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
set -e
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$d"/*.rs "$t/src/"
mv "$t/src/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/" 2>/dev/null || cp /opt/vp/Cargo.lock "$t/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
hyper = { path = "$repo", features = ["full"] }
bytes = "1"
http = "1"
[profile.dev]
debug = false
X
cd "$t"
unset RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
cargo build -q --offline 2> build.log || { cat build.log; exit 3; }
timeout 60 ./target/debug/demo
