#!/bin/bash
# pyirbuild.sh OUTDIR : emit unoptimised LLVM IR of the library with its Python bindings, against the models in pystub/
set -e
v=$(cd "$(dirname "$0")/.." && pwd); t=$v/target/ir/$1
mkdir -p $t
cd $v/target/pyshadow
export CARGO_TARGET_DIR=$t CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-C no-prepopulate-passes -Zinline-mir=no -Zshare-generics=no -Zcross-crate-inline-threshold=always -Zalways-encode-mir -C symbol-mangling-version=v0 -Zthreads=8 --cap-lints allow"
cargo +nightly rustc --offline --lib --features python -- --emit=llvm-ir
