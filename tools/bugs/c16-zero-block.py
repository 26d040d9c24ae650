id = "c16-zero-block"
property = "C16"
needs = "counting the instructions executed while hashing messages that differ only in content, one of them with an all-zero block, on the portable backend"
breaks = "message words are loaded only for blocks that aren't all zero, so the executed instructions depend on the content"
edits = [("src/portable.rs", """    let block_words = words_from_block(block);
    let mut state""", """    let block_words = if block[..] == [0; BLOCK_LEN][..] {
        [0; 16]
    } else {
        words_from_block(block)
    };
    let mut state""")]
demo = r'''
#!/bin/bash
# Counts the executed instructions of main.rs with valgrind.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock" 2>/dev/null
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$repo" }
[workspace]
END
cd "$scratch" && RUSTFLAGS="--cfg baokeshed_verif" CARGO_TARGET_DIR="$scratch/target" cargo build --release --offline -q || exit 2
count() {
    valgrind --tool=callgrind --callgrind-out-file=/dev/null "$scratch/target/release/demo" "$1" 2>&1 | sed -n 's/.*Collected : //p'
}
a=$(count a) b=$(count b)
echo "$a and $b instructions"
[ -n "$a" ] && [ -n "$b" ] || exit 2
# A hundred thousand rounds; startup differs by less than one instruction each.
d=$((a - b))
[ ${d#-} -lt 100000 ]
'''
files = {"main.rs": r"""
use std::hint::black_box;
fn main() {
    baokeshed::verif::force_platform(1);
    let mut input = [0; 128];
    input[if std::env::args().nth(1).unwrap() == "a" { 0 } else { 127 }] ^= 1;
    let mut input = input.to_vec();
    if std::env::args().nth(1).unwrap() == "a" {
        input[100] = 1;
    }
    for _ in 0..100_000 {
        black_box(baokeshed::hash(black_box(&input)));
    }
}
"""}
