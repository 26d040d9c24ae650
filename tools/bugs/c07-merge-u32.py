id = "c07-merge-u32"
property = "C07"
needs = "an incremental hasher at a position of 8 TiB or more (2^32 chunks)"
breaks = "only the low 32 bits of the chunk count decide which subtrees get merged, so the tree has the wrong shape"
edits = [("src/lib.rs", """        let total_chunks = total_bytes / CHUNK_LEN as u64;
        self.subtree""", """        let total_chunks = (total_bytes / CHUNK_LEN as u64) as u32;
        self.subtree""")]
hooks = True
rust = r"""
fn main() {
    let input: Vec<u8> = (0..5000u32).map(|i| (i * 7 + 1) as u8).collect();
    for chunks in [1u64 << 20, (1 << 32) - 2, 1 << 32, (1 << 32) + 1, 3 << 40] {
        let bits = chunks.count_ones() as usize;
        let stack: Vec<[u8; 32]> = (0..bits).map(|i| [i as u8 + 1; 32]).collect();
        let words: Vec<[u32; 8]> = (0..bits).map(|i| [(i as u32 + 1) * 0x01010101; 8]).collect();
        let mut h = baokeshed::Hasher::new();
        h.verif_place(&stack, chunks * 2048);
        h.update(&input);
        let mut r = reference_impl::Hasher::new();
        r.verif_place(&words, chunks * 2048);
        r.update(&input);
        let mut out = [0; 32];
        r.finalize(&mut out);
        assert!(h.finalize() == out, "{} chunks", chunks);
    }
}
"""
