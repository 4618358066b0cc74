#!/bin/bash
# dev helper: dump MIR of a tree: dump.sh REPO OUTDIR
set -e
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$2/tgt
mkdir -p $2; cd $1
cargo rustc --offline --lib -- -Zunpretty=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -C panic=abort > $2/mir.txt 2>$2/mir.err
cargo rustc --offline --lib -- -Zunpretty=expanded > $2/exp.txt 2>$2/exp.err
