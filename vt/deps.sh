#!/bin/bash
# Builds the two macro-only dependencies with the verifier's toolchain. $1: output directory
set -e
mkdir -p "$1"
R=$(ls -d /root/.cargo/registry/src/*/ | head -1)
V=1.98.1-x86_64-unknown-linux-gnu
rustup run $V rustc --edition 2018 --crate-type rlib --crate-name cfg_if "$R"cfg-if-1.0.5/src/lib.rs --cap-lints allow --out-dir "$1" 
rustup run $V rustc --edition 2018 --crate-type rlib --crate-name static_assertions "$R"static_assertions-1.1.0/src/lib.rs --cap-lints allow --out-dir "$1"
