id = "c08-closed-is-end"
property = "C08"
needs = "a reader that fails with UnexpectedEof (a truncated compressed stream, a TLS connection without a closing message)"
breaks = "the error is taken for the end of input: the copy reports success for truncated data"
edits = [("src/copy.rs", """            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
""", """            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => return Ok(total),
""")]
rust = r"""
use std::io;
struct Truncated(bool);
impl io::Read for Truncated {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.0 {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        self.0 = true;
        Ok(buf.len())
    }
}
fn main() {
    assert!(baokeshed::copy::copy_wide(&mut Truncated(false), &mut io::sink()).is_err());
}
"""
