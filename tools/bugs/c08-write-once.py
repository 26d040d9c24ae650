id = "c08-write-once"
property = "C08"
needs = "a writer that is interrupted in the middle of a piece, or that takes only a part of it first"
breaks = "an interrupted write ends the copy with an error instead of being retried"
edits = [("src/copy.rs", """                writer.write_all(&buffer[..n])?;
""", """                let mut done = 0;
                while done < n {
                    match writer.write(&buffer[done..n])? {
                        0 => return Err(io::ErrorKind::WriteZero.into()),
                        taken => done += taken,
                    }
                }
""")]
rust = r"""
use std::io;
struct W(Vec<u8>, u32);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 % 3 == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(1000);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let input: Vec<u8> = (0..100_000u32).map(|i| (i >> 3) as u8).collect();
    let mut w = W(vec![], 0);
    assert_eq!(baokeshed::copy::copy_wide(&mut &input[..], &mut w).unwrap(), 100_000);
    assert!(w.0 == input);
}
"""
