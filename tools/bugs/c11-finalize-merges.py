id = "c11-sse41-count"
property = "C11"
needs = "a hasher that's copied or finalized while whole chunks are on the stack and no partial chunk is buffered, then updated again"
breaks = "finalizing writes the working hash back to the hasher's stack, so continuing after it gives a wrong digest"
edits = [("c/baokeshed.c", """    hash_one_parent(block, self->chunk.key, is_root, self->chunk.flags,
                    working_hash);
    if (is_root) {""", """    hash_one_parent(block, self->chunk.key, is_root, self->chunk.flags,
                    working_hash);
    if (!is_root && chunk_state_len(&self->chunk) == 0) {
      // Keep the parent, so that finalizing again is cheaper.
      hasher *cache = (hasher *)self;
      memcpy(&cache->subtree_hashes[next_subtree_start], working_hash, OUT_LEN);
      cache->subtree_hashes_len -= 1;
    }
    if (is_root) {""")]
id = "c11-finalize-merges"
features = ["c_portable"]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..60000u32).map(|i| (i ^ (i >> 8)) as u8).collect();
    let key = [0x42; 32];
    for chunks in 1..12 {
        for &more in &[0usize, 1, 2048, 5000] {
            let mut h = baokeshed::c::Hasher::new(&key, 16);
            h.update(&input[..chunks * 2048]);
            let first = h.finalize();
            assert!(h.finalize() == first);
            h.update(&input[chunks * 2048..][..more]);
            assert!(
                baokeshed::keyed_hash(&key, &input[..chunks * 2048 + more]) == h.finalize(),
                "{} chunks, finalize, {} bytes", chunks, more
            );
        }
    }
}
"""
