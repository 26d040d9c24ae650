id = "c07-chunk-offset"
property = "C07"
needs = "an incremental hash of more than 4 GiB fed in pieces that aren't whole chunks"
breaks = "the position of a chunk that was assembled from pieces is computed with 32 bits"
edits = [("src/lib.rs", """                self.chunk.reset(self.chunk.offset + CHUNK_LEN as u64);""",
"""                let chunks = (self.chunk.offset / CHUNK_LEN as u64) as u32 + 1;
                self.chunk.reset(u64::from(chunks * CHUNK_LEN as u32));""")]
release = True
rust = r"""
fn main() {
    // More than 4 GiB, in pieces of three and a half chunks, against whole
    // chunks.
    let buf = vec![5; 7 * 1024];
    let total = (1u64 << 32) + 50_000;
    let (mut a, mut b) = (baokeshed::Hasher::new(), baokeshed::Hasher::new());
    let mut done = 0;
    while done < total {
        let n = std::cmp::min(total - done, buf.len() as u64) as usize;
        a.update(&buf[..n]);
        done += n as u64;
    }
    let buf = vec![5; 16384];
    done = 0;
    while done < total {
        let n = std::cmp::min(total - done, buf.len() as u64) as usize;
        b.update(&buf[..n]);
        done += n as u64;
    }
    assert_eq!(a.finalize(), b.finalize());
}
"""
