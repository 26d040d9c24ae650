id = "c21-recount"
property = "C21"
needs = "many chunks behind the current position"
breaks = "each chunk walks over the positions of all chunks before it, so that work grows with the square of the input"
edits = [("src/lib.rs", """        let total_chunks = total_bytes / CHUNK_LEN as u64;
        self.subtree_hashes.len() > total_chunks.count_ones() as usize
""", """        // Every chunk adds a subtree, and takes as many away as there are
        // subtrees it completes.
        let mut subtrees = 0;
        for chunk in (0..total_bytes).step_by(CHUNK_LEN) {
            let completed = (chunk / CHUNK_LEN as u64 + 1).trailing_zeros();
            subtrees = subtrees + 1 - completed;
        }
        self.subtree_hashes.len() > subtrees as usize
""")]
rust = r"""
fn main() {
    let input = vec![7u8; 48 << 20];
    let time = |n: usize| {
        let mut h = baokeshed::Hasher::new();
        h.update(&input[..n]);
        let start = std::time::Instant::now();
        for _ in 0..2000 {
            h.update(&input[..2049]);
        }
        h.finalize();
        start.elapsed().as_secs_f64()
    };
    let few = (0..5).map(|_| time(0)).fold(9e9, f64::min);
    let many = (0..5).map(|_| time(input.len())).fold(9e9, f64::min);
    assert!(many < 6.0 * few + 0.01, "an update takes {} s at first and {} s behind 48 MiB", few / 2000.0, many / 2000.0);
}
"""
release = True
