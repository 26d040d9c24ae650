id = "c12-sse41-one-block"
property = "C12"
needs = "SSE4.1 hashing of one-block inputs (parents) whose number is not a multiple of four, with start and end flags that differ from zero"
breaks = "the remaining one-block inputs are compressed without the start flags"
edits = [("c/baokeshed_sse41.c", """  uint8_t block_flags = flags | flags_start;
  while (blocks > 0) {
    if (blocks == 1) {
      block_flags |= flags_end;
    }
    compress_sse41(""", """  uint8_t block_flags = flags | flags_start;
  while (blocks > 0) {
    if (blocks == 1) {
      block_flags = flags | flags_end;
    }
    compress_sse41(""")]
features = ["c_sse41"]
rust = r"""
fn main() {
    let data: Vec<u8> = (0..64 * 64u32).map(|i| (i >> 3) as u8).collect();
    let key = [1u32, 2, 3, 4, 5, 6, 7, 8];
    let mut deltas = [0u64; 17];
    for i in 0..17 { deltas[i] = 2048 * i as u64; }
    for blocks in 1..5usize {
        for count in 0..8usize {
            let inputs: Vec<*const u8> = data.chunks(blocks * 64).take(count).map(|c| c.as_ptr()).collect();
            let (mut a, mut b) = ([0u8; 256], [0u8; 256]);
            unsafe {
                use baokeshed::c::ffi;
                ffi::hash_many_portable(inputs.as_ptr(), count, blocks, key.as_ptr(), 0, deltas.as_ptr(), 16, 1, 2, a.as_mut_ptr());
                ffi::hash_many_sse41(inputs.as_ptr(), count, blocks, key.as_ptr(), 0, deltas.as_ptr(), 16, 1, 2, b.as_mut_ptr());
            }
            assert!(a[..] == b[..], "{} inputs of {} blocks", count, blocks);
        }
    }
}
"""
