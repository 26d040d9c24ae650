id = "c17-buffered-want"
property = "C17"
needs = "a piece that leaves a partial block buffered, followed by one that reaches past the end of the chunk"
breaks = "the room left in the chunk is computed without the buffered bytes, so the chunk takes too many"
edits = [("reference_impl/reference_impl.rs", """            let want = CHUNK_LEN - self.chunk_state.len();
""", """            let want = CHUNK_LEN - BLOCK_LEN * self.chunk_state.blocks_compressed as usize;
"""), ("reference_impl/reference_impl.rs", """            if self.chunk_state.len() == CHUNK_LEN {""", """            if self.chunk_state.len() >= CHUNK_LEN {""")]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..9000u32).map(|i| (i * 7 + 1) as u8).collect();
    for &(a, b) in &[(0usize, 5000usize), (64, 4000), (1, 3000), (2047, 2), (2048, 2048), (100, 8000)] {
        let (mut x, mut y) = (reference_impl::Hasher::new(), reference_impl::Hasher::new());
        x.update(&input[..a + b]);
        y.update(&input[..a]);
        y.update(&input[a..a + b]);
        let mut out = [[0; 32]; 2];
        x.finalize(&mut out[0]);
        y.finalize(&mut out[1]);
        assert_eq!(out[0], out[1], "{} then {}", a, b);
    }
}
"""
