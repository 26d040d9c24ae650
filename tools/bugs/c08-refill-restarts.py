id = "c08-refill-restarts"
property = "C08"
needs = "a short read followed by an interrupted one while the buffer is being filled"
breaks = "the interruption restarts the filling of the buffer and the bytes read so far are lost"
edits = [("src/copy.rs", """    loop {
        match reader.read(&mut buffer) {
            Ok(0) => return Ok(total),
            Ok(n) => {
                writer.write_all(&buffer[..n])?;
                total += n as u64;
            }
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        }
    }
}
""", """    loop {
        // Fill the buffer as far as possible, so that the writer gets whole
        // chunks.
        match fill(reader, &mut buffer) {
            Ok(0) => return Ok(total),
            Ok(n) => {
                writer.write_all(&buffer[..n])?;
                total += n as u64;
            }
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        }
    }
}

fn fill<R: ?Sized + io::Read>(reader: &mut R, buffer: &mut [u8]) -> io::Result<usize> {
    let mut filled = 0;
    while filled < buffer.len() {
        match reader.read(&mut buffer[filled..])? {
            0 => break,
            n => filled += n,
        }
    }
    Ok(filled)
}
""")]
rust = r"""
use std::io;
struct Bumpy(Vec<io::Result<&'static [u8]>>);
impl io::Read for Bumpy {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() {
            return Ok(0);
        }
        let bytes = self.0.remove(0)?;
        buf[..bytes.len()].copy_from_slice(bytes);
        Ok(bytes.len())
    }
}
fn main() {
    let mut reader = Bumpy(vec![
        Ok(b"hello "),
        Err(io::ErrorKind::Interrupted.into()),
        Ok(b"world"),
    ]);
    let mut out = Vec::new();
    assert_eq!(baokeshed::copy::copy_wide(&mut reader, &mut out).unwrap(), 11);
    assert_eq!(out, b"hello world");
}
"""
