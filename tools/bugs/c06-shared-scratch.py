id = "c06-shared-scratch"
property = "C06"
needs = "work stealing: while a thread waits for a stolen right subtree, it runs another stolen subtree of at least the same height"
breaks = "child hashes are kept in a per-thread scratch area with one slot per tree level; a stolen subtree overwrites the slot of the one that's waiting"
edits = [("src/lib.rs", """    let mut children_array = [0; 2 * MAX_SIMD_DEGREE_OR_2 * OUT_LEN];
    let degree = if left.len()""", """    // Every level of the tree has its own part of the thread's scratch space,
    // which saves zeroing a fresh array for each node.
    let level = left.len().trailing_zeros() as usize;
    let children_array = SCRATCH.with(|s| unsafe { &mut (*s.get())[level] });
    let degree = if left.len()"""), ("src/lib.rs", """// This never does root finalization.
fn hash_recurse(""", """type ChildHashes = [u8; 2 * MAX_SIMD_DEGREE_OR_2 * OUT_LEN];

std::thread_local! {
    static SCRATCH: core::cell::UnsafeCell<[ChildHashes; 64]> =
        core::cell::UnsafeCell::new([[0; 2 * MAX_SIMD_DEGREE_OR_2 * OUT_LEN]; 64]);
}

// This never does root finalization.
fn hash_recurse(""")]
features = ["rayon"]
release = True
rust = r"""
fn main() {
    let input: Vec<u8> = (0..1u32 << 20).map(|i| (i ^ (i >> 8)) as u8).collect();
    let mut want = [0; 32];
    let mut r = reference_impl::Hasher::new();
    r.update(&input);
    r.finalize(&mut want);
    let start = std::time::Instant::now();
    std::env::set_var("RAYON_NUM_THREADS", "8");
    while start.elapsed().as_secs() < 20 {
        // Many hashes at once, on more threads than there are processors.
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| {
                    for _ in 0..50 {
                        assert!(baokeshed::hash(&input) == want);
                    }
                });
            }
        });
    }
}
"""
