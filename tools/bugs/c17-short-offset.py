id = "c17-short-offset"
property = "C17"
needs = "more than 4 GiB of input to the reference implementation"
breaks = "the chunk position wraps at 4 GiB"
edits = [("reference_impl/reference_impl.rs", """                self.chunk_state =
                    ChunkState::new(&self.key, new_chunk_offset, self.chunk_state.flags);""",
"""                self.chunk_state =
                    ChunkState::new(&self.key, new_chunk_offset % (1 << 32), self.chunk_state.flags);""")]
release = True
rust = r"""
fn main() {
    let buf = vec![5; 1 << 16];
    let (mut a, mut b) = (baokeshed::Hasher::new(), reference_impl::Hasher::new());
    for _ in 0..(1 << 16) + 2 {
        a.update(&buf);
        b.update(&buf);
    }
    let mut out = [0; 32];
    b.finalize(&mut out);
    assert!(a.finalize() == out);
}
"""
