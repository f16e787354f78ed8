#!/bin/bash
# Runs with cwd = a built big-O tree: exit 0 if the demonstrated guarantee holds there, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
features='"report_stderr", "async"'
[ -f "$here/features" ] && features=$(cat "$here/features")
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
big-o-test = { path = "$repo", default-features = false, features = [$features] }
tokio = { version = "1", default-features = false, features = ["rt", "time", "macros"] }
TOML
cd "$tmp" || exit 99
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
[ -f "$here/rustflags" ] && export RUSTFLAGS="$(cat "$here/rustflags")"
cargo build --offline -q 2>"$tmp/build.log" || { tail -30 "$tmp/build.log"; echo "demo: build failed"; exit 98; }
timeout 120 "$tmp/target/debug/demo"
