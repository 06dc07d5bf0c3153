#!/bin/bash
# developer build of the harness (checks use /verif/check.sh)
set -e
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly} CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
cd /verif/harness && cargo build --offline "$@" 2>&1 | grep -E "^(error|warning: unused)|-->|^ *[0-9]+ \|.*|could not|Finished|\^" | head -${LINES_MAX:-60}
