id = "c02-unmerged-remainder"
property = "C02"
needs = "an update that ends exactly on an even chunk boundary, followed by a piece shorter than a chunk as the last piece"
breaks = "the pending pair of subtrees is not merged before the partial chunk, so finalizing builds a lopsided tree"
edits = [("src/lib.rs", """            while self.needs_merge(self.chunk.offset) {
                self.merge_parent();
            }
            self.chunk.update(chunks_exact.remainder());
""", """            if self.chunk.offset != start {
                while self.needs_merge(self.chunk.offset) {
                    self.merge_parent();
                }
            }
            self.chunk.update(chunks_exact.remainder());
"""), ("src/lib.rs", """        let is_first_chunk = self.chunk.offset == 0;
        let maybe_root""", """        let start = self.chunk.offset;
        let is_first_chunk = start == 0;
        let maybe_root"""), ("src/lib.rs", """            debug_assert!(!self.needs_merge(self.chunk.offset));
            working_hash""", """            working_hash""")]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..20000u32).map(|i| (i * 7 + 1) as u8).collect();
    for &(a, b) in &[(4096usize, 5usize), (8192, 2000), (2048, 2049), (6144, 1)] {
        let mut h = baokeshed::Hasher::new();
        h.update(&input[..a]);
        h.update(&input[a..a + b]);
        assert_eq!(h.finalize(), baokeshed::hash(&input[..a + b]), "{} then {}", a, b);
    }
}
"""
