id = "c16-debug-length"
property = "C16"
needs = "debug formatting of a hasher that has input"
breaks = "the debug text shows how much input there was and the buffered bytes' count"
edits = [("src/lib.rs", """        write!(f, "Hasher {{ ... }}")""", """        f.debug_struct("Hasher")
            .field("subtrees", &self.subtree_hashes.len())
            .field("buffered", &self.chunk.buf_len)
            .finish()""")]
rust = r"""
fn main() {
    let a = baokeshed::Hasher::new();
    let mut b = baokeshed::Hasher::new_keyed(&[7; 32]);
    let text = format!("{:?}", a);
    assert_eq!(text, format!("{:?}", b));
    b.update(&[1; 5000]);
    assert_eq!(text, format!("{:?}", b));
}
"""
