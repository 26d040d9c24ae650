id = "c03-assert-advances"
property = "C03"
needs = "a build without debug assertions, and two blocks read from a clone of a stream"
breaks = "the position of a stream advances within a debug assertion, so shipped builds repeat the first block"
edits = [("src/lib.rs", """        self.offset += 2 * OUT_LEN as u64;
        output
""", """        debug_assert!(
            self.advance().is_some(),
            "a stream has no more than 2^64 bytes"
        );
        output
"""), ("src/lib.rs", """    pub fn to_hash(mut self) -> Hash {
""", """    fn advance(&mut self) -> Option<u64> {
        self.offset = self.offset.checked_add(2 * OUT_LEN as u64)?;
        Some(self.offset)
    }

    pub fn to_hash(mut self) -> Hash {
""")]
rust = r"""
fn main() {
    let mut o = baokeshed::hash_xof(b"abc");
    let a = o.read();
    assert_ne!(&a[..], &o.read()[..]);
}
"""
release = True
