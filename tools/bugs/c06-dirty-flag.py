id = "c06-dirty-flag"
property = "C06"
needs = "a hasher handed to another thread right after an update that ended the buffered chunk and a whole number of chunks more"
breaks = "whether the block buffer holds stale bytes is remembered per thread instead of per hasher"
edits = [("src/lib.rs", """        self.count = 0;
        self.buf = [0; BLOCK_LEN];
        self.buf_len = 0;
    }
""", """        self.count = 0;
        // The bytes are cleared when the next ones come in.
        STALE.with(|s| s.set(true));
        self.buf_len = 0;
    }
"""), ("src/lib.rs", """        let want = BLOCK_LEN - self.buf_len as usize;
        let take = cmp::min(want, input.len());
        self.buf[self.buf_len as usize..""", """        if self.buf_len == 0 && STALE.with(|s| s.replace(false)) {
            self.buf = [0; BLOCK_LEN];
        }
        let want = BLOCK_LEN - self.buf_len as usize;
        let take = cmp::min(want, input.len());
        self.buf[self.buf_len as usize.."""), ("src/lib.rs", """#[derive(Clone)]
struct ChunkState {""", """std::thread_local! {
    static STALE: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

#[derive(Clone)]
struct ChunkState {""")]
rust = r"""
fn main() {
    let input = vec![7u8; 4096 + 10];
    let mut h = baokeshed::Hasher::new();
    h.update(&input[..1000]);
    h.update(&input[1000..4096]);
    let got = std::thread::spawn(move || {
        h.update(&input[4096..]);
        h.finalize()
    }).join().unwrap();
    assert!(got == baokeshed::hash(&[7u8; 4096 + 10]));
}
"""
