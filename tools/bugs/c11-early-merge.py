id = "c11-early-merge"
property = "C11"
edits = [("c/baokeshed.c", """  // Hash as many whole chunks as we can, without buffering anything. At this
  // point we know none of them can be the root.
""", """  // Merge what's complete already, to keep the work at finalization small.
  // There's at least one more chunk than the stack shows.
  if (self->chunk.offset > 0 && input_len >= CHUNK_LEN &&
      (input_len % CHUNK_LEN) == 0) {
    while (self->subtree_hashes_len > 1 &&
           hasher_needs_merge(self, self->chunk.offset + input_len)) {
      hasher_merge_parent(self);
    }
  }

  // Hash as many whole chunks as we can, without buffering anything. At this
  // point we know none of them can be the root.
""")]
needs = "an update of a whole number of chunks after an earlier update left several unmerged subtrees of different heights on the stack"
breaks = "subtrees of different heights are merged before the chunks that belong between them have been added"
features = ["c_portable"]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..60000u32).map(|i| (i ^ (i >> 8)) as u8).collect();
    let key = [0x42; 32];
    for a in 1..12 {
        for b in 1..12 {
            let mut h = baokeshed::c::Hasher::new(&key, 16);
            h.update(&input[..a * 2048]);
            h.update(&input[a * 2048..][..b * 2048]);
            assert!(
                baokeshed::keyed_hash(&key, &input[..(a + b) * 2048]) == h.finalize(),
                "{} then {}", a, b
            );
        }
    }
}
"""
