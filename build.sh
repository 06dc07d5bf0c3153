#!/bin/bash
# build.sh PROFILE: builds the harness against /repo's current tree.
# Prints nothing on success; exits 2 if the build fails.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
profile="${1:-dev}"
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
mkdir -p "$here/target"
exec 9>"$here/target/.lock"
flock 9
cd "$here/harness" || exit 2
# cargo goes by modification time; the sources' contents decide here instead
sum="$(cd /repo && find crates Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name '*.pest' -o -name 'Cargo.*' \) -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)"
stamp="$here/target/.sources-$profile"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -f "$stamp"
    cargo clean --offline --profile "$profile" -p jsonpath-rfc9535 -p jsonpath_rfc9535_pest -p jsonpath_rfc9535_pest_recursive \
        -p jsonpath_rfc9535_serde -p jsonpath_rfc9535_iter -p jsonpath_rfc9535_locations -p jsonpath_rfc9535_singular >/dev/null 2>&1
fi
log="$here/target/build-$profile.log"
if ! cargo build --offline --locked --profile "$profile" >"$log" 2>&1; then
    echo "harness build failed:" >&2
    grep -E '^(error|warning: build)' -A8 "$log" | tail -60 >&2
    exit 2
fi
echo "$sum" >"$stamp"
