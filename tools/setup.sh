#!/bin/bash
# Builds the extraction tool and the harness crates (the checks do the same on their own).
set -e
cd "$(dirname "$0")/.."
( unset RUSTC RUSTUP_TOOLCHAIN; cargo build --offline --quiet --manifest-path vx/Cargo.toml )
for c in core editor index watch grammar; do
  ( . /opt/vp/env.sh; cd /verif/harness/$c 2>/dev/null && CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/target cargo build --offline --quiet )
done
