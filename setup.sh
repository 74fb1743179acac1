#!/bin/bash
# Nothing has to survive setup: every check builds what it needs. This only shows that the tools are there.
set -e
cd /verif/rx
T=$(mktemp -d)
CARGO_TARGET_DIR=$T cargo build --offline -q
ls -l $T/debug/rx
rm -rf "$T"
env -u RUSTUP_TOOLCHAIN verus --version | head -3
ls /root/.rustup/toolchains/nightly-2024-12-30-x86_64-unknown-linux-gnu/bin/rustc
