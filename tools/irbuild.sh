#!/bin/bash
# irbuild.sh FEATURES OUTDIR : emit unoptimised LLVM IR of the roots crate for one feature set
set -e
f=$1; v=$(cd "$(dirname "$0")/.." && pwd); t=$v/target/ir/$2
mkdir -p $t
cd $v/roots
export CARGO_TARGET_DIR=$t CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-C no-prepopulate-passes -Zinline-mir=no -Zshare-generics=no -Zcross-crate-inline-threshold=always -Zalways-encode-mir -C symbol-mangling-version=v0 -Zthreads=8"
cargo +nightly rustc --offline --lib --features "$f" -- --emit=llvm-ir
