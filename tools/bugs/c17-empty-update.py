id = "c17-empty-update"
property = "C17"
needs = "an update with no bytes when exactly a whole chunk (or more chunks) is in, as the last update"
breaks = "an empty update completes the pending chunk, so the last node is an empty chunk"
edits = [("reference_impl/reference_impl.rs", """        while !input.is_empty() {
            if self.chunk_state.len() == CHUNK_LEN {
""", """        loop {
            if self.chunk_state.len() == CHUNK_LEN {
"""), ("reference_impl/reference_impl.rs", """            self.chunk_state.update(&input[..take]);
            input = &input[take..];
        }
    }

    /// Finalize the""", """            self.chunk_state.update(&input[..take]);
            input = &input[take..];
            if input.is_empty() {
                break;
            }
        }
    }

    /// Finalize the""")]
rust = r"""
fn main() {
    for n in [0usize, 1, 64, 2048, 4096, 6144] {
        let input = vec![3; n];
        let (mut a, mut b) = ([0; 32], [0; 32]);
        let mut h = reference_impl::Hasher::new();
        h.update(&input);
        h.finalize(&mut a);
        h.update(&[]);
        h.finalize(&mut b);
        assert_eq!(a, b, "{} bytes", n);
    }
}
"""
