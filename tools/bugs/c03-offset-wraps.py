id = "c03-offset-wraps"
property = "C03"
needs = "reading more than 4 GiB from one extended output"
breaks = "the output position wraps at 4 GiB and the stream repeats itself"
edits = [("src/lib.rs", """        self.offset += 2 * OUT_LEN as u64;
        output
""", """        self.offset = u64::from((self.offset as Word).wrapping_add(2 * OUT_LEN as Word));
        output
""")]
release = True
rust = r"""
fn main() {
    let mut out = baokeshed::hash_xof(b"abc");
    let first = out.read();
    for _ in 1..1u64 << 26 {
        out.read();
    }
    let again = out.read();
    assert!(first[..] != again[..]);
}
"""
