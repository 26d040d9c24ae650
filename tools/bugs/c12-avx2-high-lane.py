id = "c12-avx2-high-lane"
property = "C12"
needs = "an offset whose low 32 bits wrap within one batch of eight chunks, i.e. a batch that straddles a multiple of 4 GiB"
breaks = "the C AVX2 kernel gives the lanes behind the wrap the high offset word of the batch's start, so those chunks hash as if 4 GiB earlier"
edits = [("c/baokeshed_avx2.c", """                   offset_high(offset + offset_deltas[5]),
                   offset_high(offset + offset_deltas[6]),
                   offset_high(offset + offset_deltas[7]));""",
"""                   offset_high(offset) + (offset_deltas[5] >> 32),
                   offset_high(offset) + (offset_deltas[6] >> 32),
                   offset_high(offset) + (offset_deltas[7] >> 32));""")]
features = ["c_avx2"]
rust = r"""
fn main() {
    let data: Vec<u8> = (0..8 * 2048u32).map(|i| (i >> 3) as u8).collect();
    let inputs: Vec<*const u8> = data.chunks(2048).map(|c| c.as_ptr()).collect();
    let key = [1u32, 2, 3, 4, 5, 6, 7, 8];
    let mut deltas = [0u64; 17];
    for i in 0..17 { deltas[i] = 2048 * i as u64; }
    for start in 0..9u64 {
        let offset = (5u64 << 32) - 2048 * start;
        let (mut a, mut b) = ([0u8; 256], [0u8; 256]);
        unsafe {
            use baokeshed::c::ffi;
            ffi::hash_many_portable(inputs.as_ptr(), 8, 32, key.as_ptr(), offset, deltas.as_ptr(), 0, 1, 2, a.as_mut_ptr());
            ffi::hash_many_avx2(inputs.as_ptr(), 8, 32, key.as_ptr(), offset, deltas.as_ptr(), 0, 1, 2, b.as_mut_ptr());
        }
        assert!(a[..] == b[..], "offset {:#x}", offset);
    }
}
"""
