id = "c07-depth"
property = "C07"
needs = "an incremental hasher at a position of 2^44 bytes or more whose chunk count has more than 40 one bits"
breaks = "the stack of pending subtrees is too short for the longest inputs, and pushing onto it panics"
edits = [("src/lib.rs", "const MAX_DEPTH: usize = 53;", "const MAX_DEPTH: usize = 40;")]
hooks = True
rust = r"""
fn main() {
    let input = vec![7u8; 3 * 2048 + 1];
    for bits in [10, 39, 41, 52] {
        let chunks = (1u64 << bits) - 2;
        let stack: Vec<[u8; 32]> = (1..bits).map(|i| [i as u8; 32]).collect();
        let mut h = baokeshed::Hasher::new();
        h.verif_place(&stack, chunks * 2048);
        h.update(&input);
        h.finalize();
    }
}
"""
