id = "c04-parent-mode"
property = "C04"
needs = "a derive-key computation with an input above 128 KiB (more than four levels of parents above an eight-chunk batch)"
breaks = "parents of large subtrees carry the keyed-hash flag instead of the derive-key flag, so the output is not domain separated at those nodes"
edits = [("src/lib.rs", """    let num_children = left_n + right_n;
    hash_parents_parallel(
        &children_array[..num_children * OUT_LEN],
        key,
        flags,
""", """    let num_children = left_n + right_n;
    let parent_flags = if left.len() > 64 * CHUNK_LEN && flags != Flags::empty() {
        Flags::KEYED_HASH
    } else {
        flags
    };
    hash_parents_parallel(
        &children_array[..num_children * OUT_LEN],
        key,
        parent_flags,
""")]
rust = r"""
fn main() {
    let key = [9; 32];
    for &len in &[1000usize, 100_000, 300_000, 1_000_000] {
        let input = vec![7; len];
        let mut out = [0; 32];
        let mut r = reference_impl::Hasher::new_derive_key(&key);
        r.update(&input);
        r.finalize(&mut out);
        assert_eq!(baokeshed::derive_key(&key, &input), out, "length {}", len);
    }
}
"""
