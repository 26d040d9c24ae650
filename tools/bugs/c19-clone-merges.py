id = "c19-clone-merges"
property = "C19"
needs = "cloning a hasher whose input so far is a power of two of whole chunks, given without a piece that crosses a chunk, and finalizing the clone"
breaks = "the clone merges its pending subtrees, including the pair that would have been the root"
edits = [("src/lib.rs", """#[derive(Clone)]
pub struct Hasher {""", """pub struct Hasher {"""), ("src/lib.rs", """impl Hasher {
    fn new_internal""", """impl Clone for Hasher {
    fn clone(&self) -> Self {
        let mut clone = Hasher {
            subtree_hashes: self.subtree_hashes.clone(),
            chunk: self.chunk.clone(),
        };
        // Merge pending subtrees now, so that there's less to do for every
        // further clone.
        while clone.needs_merge(clone.chunk.offset) {
            clone.merge_parent();
        }
        clone
    }
}

impl Hasher {
    fn new_internal""")]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..60000u32).map(|i| (i ^ (i >> 8)) as u8).collect();
    for chunks in 0..10 {
        for &more in &[0, 1, 2048, 2049, 4096] {
            let mut h = baokeshed::Hasher::new();
            h.update(&input[..chunks * 2048]);
            let mut c = h.clone();
            assert_eq!(c.finalize(), h.finalize(), "{} chunks", chunks);
            c.update(&input[chunks * 2048..][..more]);
            assert_eq!(c.finalize(), baokeshed::hash(&input[..chunks * 2048 + more]), "{} chunks, {} bytes", chunks, more);
        }
    }
}
"""
