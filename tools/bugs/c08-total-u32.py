id = "c08-total-u32"
property = "C08"
needs = "copying more than 4 GiB"
breaks = "the returned total is counted with 32 bits"
edits = [("src/copy.rs", """    let mut total = 0;""", """    let mut total: u32 = 0;"""),
("src/copy.rs", """            Ok(0) => return Ok(total),""", """            Ok(0) => return Ok(total.into()),"""),
("src/copy.rs", """                total += n as u64;""", """                total = total.wrapping_add(n as u32);""")]
release = True
rust = r"""
use std::io;
struct Zeros(u64);
impl io::Read for Zeros {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = std::cmp::min(self.0, buf.len() as u64);
        self.0 -= n;
        Ok(n as usize)
    }
}
fn main() {
    let len = (1u64 << 32) + 12345;
    assert_eq!(baokeshed::copy::copy_wide(&mut Zeros(len), &mut io::sink()).unwrap(), len);
}
"""
