#!/bin/bash
# build the harness binary and the LLVM IR the engine reads: tools/ir.sh OUT.ll
set -e
cd "$(dirname "$0")/../harness"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL
cargo rustc --offline --bin harness -- -C save-temps --emit=llvm-ir,link -A warnings
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
bc=$(ls -t target/debug/deps/harness*.lto.input.bc | head -1)
list=$(target/debug/harness --list | paste -sd,)
"$B/opt" -passes='internalize,globaldce' -internalize-public-api-list="$list" "$bc" -o target/h1.bc
"$B/opt" -passes='function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce' target/h1.bc -o target/h2.bc
"$B/llvm-dis" target/h2.bc -o "$1"
