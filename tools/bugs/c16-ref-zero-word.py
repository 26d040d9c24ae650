id = "c16-ref-zero-word"
property = "C16"
needs = "counting the instructions the reference implementation executes for two messages of one length"
breaks = "the reference implementation parses a block only up to its last byte that is not zero"
edits = [("reference_impl/reference_impl.rs", """    for (bytes_block, word) in bytes.chunks_exact(4).zip(words.iter_mut()) {
        *word = u32::from_le_bytes(bytes_block.try_into().unwrap());
    }
""", """    for (bytes_block, word) in bytes.chunks_exact(4).zip(words.iter_mut()) {
        *word = 0;
        for (i, &byte) in bytes_block.iter().enumerate() {
            if std::hint::black_box(byte) == 0 {
                continue;
            }
            *word |= std::hint::black_box(byte as u32) << (8 * i);
        }
    }
""")]
demo = r'''
#!/bin/bash
# Counts the executed instructions of main.rs with valgrind.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
reference_impl = { path = "$repo/reference_impl" }
[workspace]
END
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" cargo build --release --offline -q || exit 2
count() {
    valgrind --tool=callgrind --callgrind-out-file=/dev/null "$scratch/target/release/demo" "$1" 2>&1 | sed -n 's/.*Collected : //p'
}
a=$(count a) b=$(count b)
echo "$a and $b instructions"
[ -n "$a" ] && [ -n "$b" ] || exit 2
# Ten thousand messages; startup differs by less than one instruction each.
d=$((a - b))
[ ${d#-} -lt 10000 ]
'''
files = {"main.rs": r"""
use std::hint::black_box;
fn main() {
    let input = [if std::env::args().nth(1).unwrap() == "a" { 0u8 } else { 255 }; 100];
    for _ in 0..10_000 {
        let mut h = reference_impl::Hasher::new_keyed(black_box(&[1; 32]));
        h.update(black_box(&input));
        let mut out = [0; 32];
        h.finalize(&mut out);
        black_box(out);
    }
}
"""}
