#!/bin/bash
# builds the probe with each of the 128 sets of features: target/probe/bin/<mask> or, if it doesn't compile, target/probe/bin/<mask>.failed
cd "$(dirname "$0")" || exit 2
. ../env.sh
T="$(cd .. && pwd)/target/probe"
mkdir -p "$T/bin"
NAMES=(report_stdout report_stderr no_report tolerance_10_percent tolerance_25_percent no_allocator_metrics async)
lane() {
    for ((mask = $1; mask < 128; mask += 8)); do
        # few feature switches from one to the next would save nothing: every set is a build of its own
        f=""
        for ((b = 0; b < 7; b++)); do ((mask >> b & 1)) && f="$f,${NAMES[b]}"; done
        if RUSTFLAGS="-Awarnings" cargo build --offline --quiet --no-default-features --features "${f#,}" --target-dir "$T/lane$1" >"$T/log.$1" 2>&1; then
            rm -f "$T/bin/$mask.failed"
            # (a new file, in case the old one is being executed)
            cmp -s "$T/lane$1/debug/probe" "$T/bin/$mask" || { cp "$T/lane$1/debug/probe" "$T/bin/$mask.new" && mv "$T/bin/$mask.new" "$T/bin/$mask"; }
        else
            rm -f "$T/bin/$mask"
            { grep -A8 "^error" "$T/log.$1" || tail -20 "$T/log.$1"; } | head -60 >"$T/bin/$mask.failed"
        fi
    done
}
for l in 0 1 2 3 4 5 6 7; do lane $l & done
wait
# nothing compiles: that's no matter of features
if [ ! -e "$T/bin/9" ] && [ ! -e "$T/bin/73" ] && [ "$(ls "$T/bin" | grep -c failed)" = 128 ]; then cat "$T/bin/73.failed" >&2; echo "ERROR: the crate doesn't compile with any set of features" >&2; exit 2; fi
exit 0
