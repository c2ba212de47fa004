#!/bin/bash
# Checks that the toolchains are usable offline and that the machinery builds from the committed files.
set -e
cd "$(dirname "$0")"
mkdir -p out evidence target
cargo --version
cargo +nightly --version
cargo +nightly miri --version
RUSTFLAGS=-Awarnings cargo build --offline -q --manifest-path harness/Cargo.toml --profile checked --lib --target-dir target/setup
rm -rf /verif/target/setup
