#!/bin/bash
# builds the framework (every check builds what it needs again, incrementally)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
(cd harness && RUSTFLAGS="--cfg big_o_verif" cargo build --offline --quiet --target-dir "$VERIF_DIR/target/harness") || exit 2
probe/build-all.sh || exit 2
python3 tools/gen_sut.py || exit 2
(cd conc && RUSTFLAGS="-Awarnings" cargo build --offline --quiet --target-dir "$VERIF_DIR/target/conc") || exit 2
