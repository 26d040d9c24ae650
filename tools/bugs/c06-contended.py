id = "c06-contended"
property = "C06"
needs = "two threads hashing five or more whole chunks and a partial one behind other chunks at the same moment, so that one finds the shared staging area in use"
breaks = "the thread that finds the staging area in use hashes its chunks one by one, at a position that leaves out what is before this batch"
edits = [("src/lib.rs", """    platform.hash_many(
        &chunks_array,
        key,
        offset,
        CHUNK_LEN as u64,
        flags.bits(),
        Flags::CHUNK_START.bits(),
        Flags::CHUNK_END.bits(),
        out,
    );

    // Handle the remaining""", """    // Stage the outputs in memory that is likely to be in the cache already.
    let worth_it = chunks_array.len() >= 5 && offset > 0 && !chunks_exact.remainder().is_empty();
    lazy_staging(worth_it, |staging| match staging {
        Some(staging) => {
            platform.hash_many(
                &chunks_array,
                key,
                offset,
                CHUNK_LEN as u64,
                flags.bits(),
                Flags::CHUNK_START.bits(),
                Flags::CHUNK_END.bits(),
                &mut staging[..],
            );
            out[..chunks_array.len() * OUT_LEN]
                .copy_from_slice(&staging[..chunks_array.len() * OUT_LEN]);
        }
        None if !worth_it => platform.hash_many(
            &chunks_array,
            key,
            offset,
            CHUNK_LEN as u64,
            flags.bits(),
            Flags::CHUNK_START.bits(),
            Flags::CHUNK_END.bits(),
            out,
        ),
        None => {
            for (i, chunk) in chunks_array.iter().enumerate() {
                let output = hash_one_chunk(
                    &chunk[..],
                    key,
                    (i * CHUNK_LEN) as u64,
                    IsRoot::NotRoot,
                    flags,
                    platform,
                );
                *array_mut_ref!(out, i * OUT_LEN, OUT_LEN) = output.to_hash().into();
            }
        }
    });

    // Handle the remaining"""), ("src/lib.rs", """// Use SIMD parallelism to hash multiple chunks at the same time on a single
// thread.""", """fn lazy_staging(worth_it: bool, f: impl FnOnce(Option<&mut [u8; MAX_SIMD_DEGREE * OUT_LEN]>)) {
    use std::sync::atomic::{AtomicBool, Ordering};
    static IN_USE: AtomicBool = AtomicBool::new(false);
    static mut STAGING: [u8; MAX_SIMD_DEGREE * OUT_LEN] = [0; MAX_SIMD_DEGREE * OUT_LEN];
    if worth_it && !IN_USE.swap(true, Ordering::Acquire) {
        f(Some(unsafe { &mut *std::ptr::addr_of_mut!(STAGING) }));
        IN_USE.store(false, Ordering::Release);
    } else {
        f(None);
    }
}

// Use SIMD parallelism to hash multiple chunks at the same time on a single
// thread.""")]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..13 * 2048 + 1).map(|i: u32| (i.wrapping_mul(2654435761) >> 13) as u8).collect();
    let want = {
        let mut h = baokeshed::Hasher::new();
        h.update(&input);
        h.finalize()
    };
    let threads: Vec<_> = (0..8)
        .map(|_| {
            let input = input.clone();
            std::thread::spawn(move || {
                for _ in 0..3000 {
                    assert_eq!(baokeshed::hash(&input), want);
                }
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
}
"""
release = True
