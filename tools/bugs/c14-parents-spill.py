id = "c14-parents-spill"
property = "C14"
needs = "the C SSE4.1 kernel with three one-block inputs left over and an output that ends right behind the third hash"
breaks = "three remaining parents are hashed four at a time with one of them repeated, and the fourth hash is written behind the output"
edits = [("c/baokeshed_sse41.c", """    out = &out[DEGREE * OUT_LEN];
  }
  while (num_inputs > 0) {
    hash_one_sse41(""", """    out = &out[DEGREE * OUT_LEN];
  }
  if (num_inputs == 3 && blocks == 1) {
    // One batch is faster than three single parents.
    const uint8_t *batch[4] = {inputs[0], inputs[1], inputs[2], inputs[2]};
    hash4_sse41(batch, blocks, key_words, offset, offset_deltas, flags,
                flags_start, flags_end, out);
    return;
  }
  while (num_inputs > 0) {
    hash_one_sse41(""")]
features = ["c_sse41"]
rust = r"""
fn main() {
    let data = [7u8; 64 * 8];
    let key = [1u32, 2, 3, 4, 5, 6, 7, 8];
    let deltas = [0u64; 17];
    for count in 0..8usize {
        let inputs: Vec<*const u8> = data.chunks(64).take(count).map(|c| c.as_ptr()).collect();
        let mut out = [0xEEu8; 512];
        unsafe {
            baokeshed::c::ffi::hash_many_sse41(inputs.as_ptr(), count, 1, key.as_ptr(), 0, deltas.as_ptr(), 4, 0, 0, out.as_mut_ptr());
        }
        assert!(out[count * 32..].iter().all(|&b| b == 0xEE), "{} parents", count);
    }
}
"""
