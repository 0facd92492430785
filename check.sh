#!/bin/bash
# Builds the simulator against /repo's working tree and runs it.
#   check.sh build | check.sh check <ID> [quick|thorough] | check.sh replay <file> | check.sh selftest
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# C16 watches the stack: what is a recursion in the source must be one in the machine code.
dir=release
case "${1:-}" in
    check) [ "${2:-}" = C16 ] && dir=plain ;;
    replay) grep -q '^scenario C16' "${2:-/dev/null}" 2>/dev/null && dir=plain ;;
esac
# Never trust timestamps: the library is compiled anew every time.
rm -rf "$here/target/$dir"/.fingerprint/gamma-* "$here/target/$dir"/.fingerprint/simcheck-*
if ! log=$(cd "$here/sim" && cargo build --profile $dir --offline --locked 2>&1); then
    echo "$log" | tail -40
    echo "HARNESS: build failed"
    exit 2
fi
[ "${1:-}" = build ] && exit 0
SIMCHECK_OUT="$here" exec "$here/target/$dir/simcheck" "$@"
