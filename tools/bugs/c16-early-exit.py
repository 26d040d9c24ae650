id = "c16-early-exit"
property = "C16"
needs = "comparing a hash value with a byte array and counting the executed instructions"
breaks = "the comparison stops at the first difference"
edits = [("src/lib.rs", """        constant_time_eq::constant_time_eq(&self.0[..], other)
""", """        for (a, b) in self.0.chunks(8).zip(other.chunks(8)) {
            if a != b {
                return false;
            }
        }
        true
""")]
demo = r'''
#!/bin/bash
# Counts the executed instructions of main.rs with valgrind.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock" 2>/dev/null
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$repo" }
[workspace]
END
cd "$scratch" && RUSTFLAGS="--cfg baokeshed_verif" CARGO_TARGET_DIR="$scratch/target" cargo build --release --offline -q || exit 2
count() {
    valgrind --tool=callgrind --callgrind-out-file=/dev/null "$scratch/target/release/demo" "$1" 2>&1 | sed -n 's/.*Collected : //p'
}
a=$(count a) b=$(count b)
echo "$a and $b instructions"
[ -n "$a" ] && [ -n "$b" ] || exit 2
# A hundred thousand rounds; startup differs by less than one instruction each.
d=$((a - b))
[ ${d#-} -lt 100000 ]
'''
files = {"main.rs": r"""
use std::hint::black_box;
fn main() {
    let a: baokeshed::Hash = [5; 32].into();
    let mut b = [5; 32];
    b[if std::env::args().nth(1).unwrap() == "a" { 0 } else { 31 }] ^= 1;
    for _ in 0..100_000 {
        assert!(!black_box(black_box(&a) == black_box(&b)));
    }
}
"""}
