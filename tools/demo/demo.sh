#!/bin/bash
# Exit 0: the behaviour is right; non-zero: it is broken (or the demo does not build).
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset RUSTFLAGS CARGO_TARGET_DIR
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here"/*.rs "$work/"
cp "$here/Cargo.toml.tpl" "$work/Cargo.toml"
cp "$PWD/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
sed -i "s#/repo/#$PWD/#" "$work/Cargo.toml"
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build --offline >"$work/build.log" 2>&1 || { tail -40 "$work/build.log"; exit 3; }
timeout 120 "$work/target/debug/demo"
