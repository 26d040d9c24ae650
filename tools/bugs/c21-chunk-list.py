id = "c21-chunk-list"
property = "C21"
needs = "a single long update: only then is the list of its chunks long"
breaks = "an update keeps a list of all its chunks on the heap, so memory grows with the input"
edits = [("src/lib.rs", """        let mut fused_chunks = chunks_exact
            .by_ref()
            .map(|chunk| array_ref!(chunk, 0, CHUNK_LEN))
            .fuse();
""", """        let all_chunks: Vec<&[u8; CHUNK_LEN]> = chunks_exact
            .by_ref()
            .map(|chunk| array_ref!(chunk, 0, CHUNK_LEN))
            .collect();
        let mut fused_chunks = all_chunks.iter().copied().fuse();
""")]
COUNT = r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
"""
rust = COUNT + r"""
fn main() {
    let input = vec![7u8; 200 << 20];
    baokeshed::Hasher::new().update(&input[..1 << 20]).finalize();
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    baokeshed::Hasher::new().update(&input).finalize();
    let more = PEAK.load(SeqCst) - before;
    assert!(more < 400_000, "{} bytes of heap", more);
}
"""
release = True
