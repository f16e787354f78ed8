#!/bin/bash
# check.sh <property> | check.sh replay <file>: builds the harness against /repo's working tree and decides one property.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: error of the check
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
. ./env.sh
exec 3>&1
log="$(mktemp)"
build() { # build <crate> <flags> [<cargo options>]
    if ! (cd "$1" && RUSTFLAGS="$2" cargo build --offline --quiet --target-dir "$VERIF_DIR/target/$1" $3) >"$log" 2>&1; then
        grep -A12 "^error" "$log" | head -80 >&2; echo "ERROR: build of $1 failed" >&2; return 1
    fi
}
prop="$1"
sub=""
if [ "$1" = replay ]; then sub="$(sed -n 's/.*"sub": *"\([^"]*\)".*/\1/p' "$2" | head -1)"; prop="$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)"; fi
build_harness() { build harness "--cfg big_o_verif" 2>/dev/null || build harness "" --no-default-features; }
case "$prop:$sub" in
    # (of the allocator of the process)
    C04:global*|C05:global*) crate=harness; build_harness || exit 2 ;;
    # (without interleaved threads, if the deterministic scheduler can't be put under the code)
    C04:*|C05:*|C07:*|C08:*|C09:*|C10:*|C11:*) crate=conc
        python3 tools/gen_sut.py && build conc "-Awarnings" 2>/dev/null || { export VERIF_PLAIN=1; python3 tools/gen_sut.py && build conc "-Awarnings"; } || exit 2 ;;
    C23:*|C24:*) crate=harness; build harness "--cfg big_o_verif" || exit 2 ;;
    # (if the hooks don't fit the code, only those two are affected)
    *) crate=harness; build_harness || exit 2 ;;
esac
rm -f "$log"
if [ "$prop" = C22 ]; then probe/build-all.sh || exit 2; fi
if [ "$1" = replay ]; then exec target/$crate/debug/$crate replay "$2"; fi
case "$prop" in
    # in two parts: over the deterministic scheduler and on the allocator of the process
    C04|C05) target/conc/debug/conc check "$1" || exit $?
        build_harness || exit 2
        rm -f "$log"
        export VERIF_SECOND=1; crate=harness ;;
esac
exec target/$crate/debug/$crate check "$1"
