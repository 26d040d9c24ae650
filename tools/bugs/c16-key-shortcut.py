id = "c16-key-shortcut"
property = "C16"
needs = "counting the instructions executed while hashing with keys of which some are all zero in a word"
breaks = "key words are parsed byte by byte, skipping zero bytes, so the executed instructions depend on the key"
edits = [("src/lib.rs", """    // Parse the message bytes as little endian words.
    let refs = array_refs!(bytes, 4, 4, 4, 4, 4, 4, 4, 4);
    [
        Word::from_le_bytes(*refs.0),
        Word::from_le_bytes(*refs.1),
        Word::from_le_bytes(*refs.2),
        Word::from_le_bytes(*refs.3),
        Word::from_le_bytes(*refs.4),
        Word::from_le_bytes(*refs.5),
        Word::from_le_bytes(*refs.6),
        Word::from_le_bytes(*refs.7),
    ]
""", """    // Parse the message bytes as little endian words.
    let mut words = [0; 8];
    for (i, &byte) in bytes.iter().enumerate() {
        let mut bits = byte;
        while bits != 0 {
            words[i / 4] |= ((bits & bits.wrapping_neg()) as Word) << (8 * (i % 4));
            bits &= bits - 1;
        }
    }
    words
""")]
demo = r'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock" 2>/dev/null
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$repo" }
[workspace]
END
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" cargo build --release --offline -q || exit 2
count() { valgrind --tool=none --trace-notbelow=0 true 2>/dev/null; valgrind --tool=callgrind --callgrind-out-file=/dev/null "$scratch/target/release/demo" "$1" 2>&1 | sed -n 's/.*Collected : //p'; }
a=$(count a); b=$(count b)
[ -n "$a" ] && [ "$a" = "$b" ] || { echo "instructions: $a with one key, $b with another"; exit 1; }
'''
files = {"main.rs": r"""
fn main() {
    // The same work to choose either key.
    let keys = [[0x55u8; 32], [0x41u8; 32]];
    let pick = std::env::args().nth(1).unwrap().as_bytes()[0] & 1;
    let key = keys[pick as usize];
    let mut sum = 0;
    for _ in 0..1000 {
        sum ^= baokeshed::keyed_hash(std::hint::black_box(&key), b"message").as_bytes()[0] & 0;
    }
    std::process::exit(sum as i32);
}
"""}
