id = "c01-big-right-offset"
property = "C01"
needs = "a one-shot input of more than 512 KiB whose two top subtrees differ in length"
breaks = "the right subtree of a large node is hashed as if it started at the wrong position"
edits = [("src/lib.rs", """    // Recurse! This uses multiple threads if Rayon is enabled.
    let (left_n, right_n) = join(
        || hash_recurse(left, key, offset, flags, platform, left_out),
        || hash_recurse(right, key, right_off, flags, platform, right_out),
    );
""", """    // Recurse! This uses multiple threads if Rayon is enabled, and if the
    // subtrees are large enough to be worth it.
    let (left_n, right_n) = if input.len() > 256 * CHUNK_LEN {
        join(
            || hash_recurse(left, key, offset, flags, platform, left_out),
            || {
                let right_off = offset + right.len() as u64;
                hash_recurse(right, key, right_off, flags, platform, right_out)
            },
        )
    } else {
        (
            hash_recurse(left, key, offset, flags, platform, left_out),
            hash_recurse(right, key, right_off, flags, platform, right_out),
        )
    };
""")]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..1u32 << 20).map(|i| (i ^ (i >> 8)) as u8).collect();
    for &len in &[1000, 100_000, 500_000, 524_288, 700_001, 1 << 20] {
        let mut h = baokeshed::Hasher::new();
        h.update(&input[..len]);
        // Equal to the incremental result, except that a shared mistake is
        // caught by the reference implementation.
        let mut out = [0; 32];
        let mut r = reference_impl::Hasher::new();
        r.update(&input[..len]);
        r.finalize(&mut out);
        assert!(baokeshed::hash(&input[..len]) == out && h.finalize() == out, "length {}", len);
    }
}
"""
