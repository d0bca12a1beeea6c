#!/bin/bash
# bc.sh PACKAGE TARGETDIR OUT.bc OUT.bin : whole-program bitcode and native binary of one harness crate
set -e
cd "$(dirname "$(readlink -f "$0")")"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$2" RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS; export RUSTFLAGS="--cap-lints allow"
cargo rustc --release --offline -q -p "$1" -- -C save-temps -C no-vectorize-loops -C no-vectorize-slp -A warnings
B="$2/release/deps"
n=${1//-/_}
bc=$(ls -t "$B/$n"-*-cgu.0.rcgu.bc "$B/$n"-*cgu.0.rcgu.bc 2>/dev/null | head -1)
cp "$bc" "$3"
cp "$2/release/$1" "$4"
