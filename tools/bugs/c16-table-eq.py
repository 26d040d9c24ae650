id = "c16-table-eq"
property = "C16"
needs = "watching which addresses a comparison reads: its instructions stay the same"
breaks = "comparison looks every difference up in a table, so that the cache lines touched depend on where and how two values differ"
edits = [("src/lib.rs", """    fn eq(&self, other: &Hash) -> bool {
        constant_time_eq::constant_time_eq(&self.0[..], &other.0[..])
    }
""", """    fn eq(&self, other: &Hash) -> bool {
        same(&self.0, &other.0)
    }
"""), ("src/lib.rs", """/// This implementation is constant-time.
impl PartialEq for Hash {
""", """// Is this byte of a difference set? A table avoids the branch.
static IS_SET: [u8; 256] = {
    let mut table = [1; 256];
    table[0] = 0;
    table
};

fn same(a: &[u8; OUT_LEN], b: &[u8; OUT_LEN]) -> bool {
    let mut differences = 0;
    for (x, y) in a.iter().zip(b.iter()) {
        differences += IS_SET[(x ^ y) as usize] as usize;
    }
    differences == 0
}

/// This implementation is constant-time.
impl PartialEq for Hash {
""")]
demo = r'''
#!/bin/bash
# Compares the addresses main.rs reads for two values, with valgrind's lackey.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$repo" }
[workspace]
END
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" cargo build --release --offline -q || exit 2
addresses() {
    # What lies between the two writes to MARK.
    valgrind --tool=lackey --trace-mem=yes --log-fd=9 "$scratch/target/release/demo" "$1" 9>&1 >"$scratch/mark" | grep '^ [LSM] ' >"$scratch/all"
    sed -n "/^ M 0*$(cat "$scratch/mark"),8/,/^ M 0*$(cat "$scratch/mark"),8/p" "$scratch/all" >"$scratch/some"
    [ $(wc -l <"$scratch/some") -gt 10 ] || exit 2
    md5sum <"$scratch/some"
}
a=$(addresses a) b=$(addresses b) again=$(addresses a)
[ -n "$a" ] && [ -n "$b" ] || exit 2
echo "$a"
echo "$b"
[ "$a" = "$again" ] || exit 2
[ "$a" = "$b" ]
'''
files = {"main.rs": r"""
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering};
static MARK: AtomicU64 = AtomicU64::new(0);
fn main() {
    let byte = std::env::args().nth(1).unwrap().into_bytes()[0];
    let zero = baokeshed::Hash::from([0; 32]);
    let other = baokeshed::Hash::from([byte; 32]);
    println!("{:x}", MARK.as_ptr() as usize);
    MARK.store(1, Ordering::SeqCst);
    black_box(black_box(&zero) == black_box(&other));
    MARK.store(2, Ordering::SeqCst);
}
"""}
