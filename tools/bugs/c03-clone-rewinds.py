id = "c03-clone-rewinds"
property = "C03"
needs = "cloning an extended output after reading from it"
breaks = "the clone starts over at the beginning of the stream instead of continuing where the original stands"
edits = [("src/lib.rs", """#[derive(Clone)]
pub struct Output {""", """pub struct Output {"""), ("src/lib.rs", """impl Output {
    pub fn read""", """impl Clone for Output {
    fn clone(&self) -> Self {
        Output {
            cv: self.cv,
            block: self.block,
            block_len: self.block_len,
            offset: 0,
            flags: self.flags,
            platform: self.platform,
        }
    }
}

impl Output {
    pub fn read""")]
rust = r"""
fn main() {
    let mut a = baokeshed::hash_xof(b"abc");
    let _ = a.clone().read();
    a.read();
    a.read();
    let mut b = a.clone();
    let (x, y) = (a.read(), b.read());
    assert!(x[..] == y[..]);
}
"""
