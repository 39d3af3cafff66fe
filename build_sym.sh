#!/bin/bash
# builds the whole-program IR of a harness group from /repo's working tree: build_sym.sh FEATURE OUT.ll
set -e
cd "$(dirname "$0")/sym"
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=${SV_TARGET:-$PWD/../target/sym}
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -C save-temps -Cembed-bitcode=yes --cfg disc_riider_verif -Awarnings"
# a function that nothing uses: checked while it is there
grep -q "pub fn parse_section(section: &str) -> PyResult<WiiPartType>" /repo/disc-riider-py/src/lib.rs && RUSTFLAGS="$RUSTFLAGS --cfg sv_parse_section"
rm -f $CARGO_TARGET_DIR/release/deps/svsym*.bc
touch -c ../harness/lib.rs
cargo build --release --offline -q --features "$1"
T=~/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin
BC=$(ls $CARGO_TARGET_DIR/release/deps/svsym*.lto.input.bc)
API=$(grep -ho 'fn h_[a-z0-9_]*' ../harness/*.rs | sed 's/fn //' | sort -u | paste -sd,)
$T/opt -passes='internalize,globaldce' -internalize-public-api-list=$API "$BC" -S -o "$2"
