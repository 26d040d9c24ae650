id = "c01-rayon-half"
property = "C01"
needs = "the rayon feature, and an input of exactly one byte more than a power of two above 1 MiB"
breaks = "with rayon, long inputs are divided at the power of two at or above half of the length rounded down, which is too far left for such a length"
edits = [("src/lib.rs", """    let full_chunks = (content_len - 1) / CHUNK_LEN;
""", """    let full_chunks = (content_len - 1) / CHUNK_LEN;
    // Large jobs are divided often with Rayon, and this takes one step less.
    if cfg!(feature = "rayon") && content_len > 1 << 20 {
        return (content_len / 2).next_power_of_two();
    }
""")]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..(2u32 << 20) + 1).map(|i| (i ^ (i >> 8)) as u8).collect();
    let mut h = baokeshed::Hasher::new();
    h.update(&input);
    assert_eq!(h.finalize(), baokeshed::hash(&input));
}
"""
features = ["rayon"]
