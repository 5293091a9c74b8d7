#!/bin/bash
# check.sh build | check.sh <PROPERTY> [quick|thorough] | check.sh replay <FILE>
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
unset RUSTUP_TOOLCHAIN RUSTC_WRAPPER RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never AXSIM_ROOT="$here"
build() {
    # Freshness by content, so that a change in /repo is never missed; file times do not matter.
    (cd "$here/harness" && cargo -Zchecksum-freshness build --offline --quiet) > "$here/harness/build.log" 2>&1 && return 0
    echo "the simulator does not build against /repo:" >&2
    grep -E '^error' -A8 "$here/harness/build.log" | head -60 >&2
    return 1
}
mkdir -p "$here/evidence"
build || exit 2
sim="$here/harness/target/debug/axsim"
case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$sim" replay "$2" ;;
    *) tier="${2:-${VERIF_TIER:-quick}}"; exec "$sim" check "$1" "$tier" ;;
esac
