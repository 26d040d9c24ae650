id = "c07-narrow-total"
property = "C07"
needs = "a 32-bit processor and more than 4 GiB of input"
breaks = "the number of chunks so far is taken from the low half of the byte count, so that subtrees are merged too late"
edits = [("src/lib.rs", """        let total_chunks = total_bytes / CHUNK_LEN as u64;
        self.subtree_hashes.len() > total_chunks.count_ones() as usize
""", """        let total_chunks = total_bytes as usize / CHUNK_LEN;
        self.subtree_hashes.len() > total_chunks.count_ones() as usize
""")]
far = "i686"
hooks = True
rust = r"""
fn main() {
    // 2^21 + 1 chunks, 4 GiB and 2 KiB, of which only the subtrees' hashes are known.
    let subtrees = [[1u8; 32], [2u8; 32]];
    let mut h = baokeshed::Hasher::new();
    h.verif_place(&subtrees, (4 << 30) + 2048);
    let state = |h: &baokeshed::Hasher| h.verif_state();
    let before = state(&h);
    // Finalizing and adding a byte must leave both subtrees, which differ in
    // size, as they are.
    h.update(&[0]);
    let after = state(&h);
    let find = |s: &[u8], what: &[u8]| s.windows(what.len()).any(|w| w == what);
    assert!(find(&before, &[1; 32]) && find(&before, &[2; 32]));
    assert!(find(&after, &[1; 32]) && find(&after, &[2; 32]), "two subtrees of different sizes have been merged");
}
"""
