#!/bin/bash
# check.sh <property> [--replay FILE]: rebuild the monitor against /repo's working tree, run it.
# Exit 0 held, 1 violated (VIOLATION line printed), 2 no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/harness/target" CARGO_NET_OFFLINE=true VERIF_DIR="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
id=$1
# The library is always compiled anew: file times prove nothing in a copied tree.
find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'material-color-utilities-rs-*' -exec rm -rf {} + 2>/dev/null
log=$(mktemp "${TMPDIR:-/tmp}/verif-build.XXXXXX") || exit 2
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    tail -n 40 "$log" >&2
    rm -f "$log"
    echo "NO VERDICT: the monitor does not build against this tree" >&2
    exit 2
fi
rm -f "$log"
if [ "$id" = build ]; then exit 0; fi
sed -n "s/^known: property=$id /KNOWN-FINDING: property=$id /p" "$here/known_findings.txt"
err=$(mktemp "${TMPDIR:-/tmp}/verif-err.XXXXXX") || exit 2
"$CARGO_TARGET_DIR/release/monitor" "$@" 2>"$err"
rc=$?
cat "$err" >&2
if [ $rc -gt 2 ] && grep -q 'has overflowed its stack' "$err"; then
    # Unbounded recursion in the library ends the process before the monitor can report.
    mkdir -p "$here/replays"
    cp "$err" "$here/replays/$id-stack.txt"
    echo "  stack overflow: unbounded recursion under this property's workload"
    echo "VIOLATION property=$id replay=$here/replays/$id-stack.txt"
    rc=1
fi
rm -f "$err"
[ $rc -gt 2 ] && rc=2
exit $rc
