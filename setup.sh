#!/bin/bash
# builds the monitors once, offline, from the committed files
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path harness/Cargo.toml || exit 2
# the sanitizer variants used by C27 and C29; a check builds what is missing
timeout 1500 python3 tools/stage.py build quick 1 - || true
exit 0
