#!/bin/bash
# Exit 0 if the property's scenario behaves as stated, nonzero otherwise. Run with cwd /repo.
# Compiles /repo's crate against small stand-ins for its unavailable dependencies (models/).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$here/models" "$work/"
sed -i "s#@REPO@#$repo#" "$work/demo/Cargo.toml" "$work"/demo/src/*.rs
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR; export RUSTFLAGS=-Awarnings
cd "$work/demo" || exit 3
cargo build -q --offline --target-dir "$work/target" > "$work/log" 2>&1 || { cat "$work/log"; exit 3; }
timeout 60 "$work/target/debug/demo"
