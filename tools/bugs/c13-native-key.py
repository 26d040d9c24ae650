id = "c13-native-key"
property = "C13"
needs = "a big-endian processor"
breaks = "the portable 64-bit kernel stores chaining values in the processor's byte order"
edits = [("src/portable64.rs", """        *refs.2 = words[2].to_le_bytes();
""", """        *refs.2 = words[2].to_ne_bytes();
""")]
far = "s390x"
rust = r"""
fn main() {
    let input = [1u8; 128];
    let mut cv = [5u64; 4];
    let mut out = [0; 32];
    baokeshed::portable64::hash_many(&[&input], &cv, 0, 0, 0, 0, 0, &mut out);
    baokeshed::portable64::compress(&mut cv, &input, 128, 0, 0);
    for i in 0..4 {
        assert_eq!(out[8 * i..8 * i + 8], cv[i].to_le_bytes()[..], "word {}", i);
    }
}
"""
