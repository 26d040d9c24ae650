id = "c08-fill-drops-error"
property = "C08"
needs = "a reader that fails once after a short read, and reports the end of input when it is asked again"
breaks = "an error that comes while the buffer is partly filled is dropped, so truncated data is reported as complete"
edits = [("src/copy.rs", """        match reader.read(&mut buffer) {
            Ok(0) => return Ok(total),
            Ok(n) => {
                writer.write_all(&buffer[..n])?;
                total += n as u64;
            }
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        }
""", """        // Fill the whole buffer if possible, to keep all the SIMD lanes occupied.
        let mut filled = 0;
        while filled < buffer.len() {
            match reader.read(&mut buffer[filled..]) {
                Ok(0) => break,
                Ok(n) => filled += n,
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
                // Deliver what's there first. The next read fails again.
                Err(_) if filled > 0 => break,
                Err(e) => return Err(e),
            }
        }
        if filled == 0 {
            return Ok(total);
        }
        writer.write_all(&buffer[..filled])?;
        total += filled as u64;
""")]
rust = r"""
use std::io;
struct R(u32);
impl io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        match self.0 {
            1 => { b[..100].copy_from_slice(&[5; 100]); Ok(100) }
            2 => Err(io::ErrorKind::ConnectionReset.into()),
            _ => Ok(0),
        }
    }
}
fn main() {
    let mut out = vec![];
    let r = baokeshed::copy::copy_wide(&mut R(0), &mut out);
    assert!(r.is_err(), "{:?}", r);
    assert_eq!(out, vec![5; 100]);
}
"""
