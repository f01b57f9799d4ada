#!/bin/sh
# Build the analyser.
set -e
cd "$(dirname "$0")"
mkdir -p build
rustc +nightly --edition 2021 -O -A warnings flacai/src/main.rs -o build/flacai.$$
mv -f build/flacai.$$ build/flacai
