#!/bin/sh
# Compiles the library and the demonstration in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
rustc --edition 2015 --crate-name claxon --crate-type rlib -A warnings -O FLAGS src/lib.rs --out-dir "$d" || exit 2
rustc --edition 2018 -A warnings --extern claxon="$d/libclaxon.rlib" "$here/demo.rs" -o "$d/demo" || exit 2
timeout 60 "$d/demo"
