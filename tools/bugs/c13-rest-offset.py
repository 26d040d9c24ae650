id = "c13-rest-offset"
property = "C13"
needs = "the 64-bit SSE4.1 kernel with an odd number of inputs and an offset table whose third entry is not twice the second"
breaks = "the remaining input's offset is derived from the second table entry instead of being read from the table"
edits = [("c64/baokeshed64_sse41.c", """    offset += offset_deltas[DEGREE];""", """    offset += DEGREE * (uint32_t)offset_deltas[1];""")]
needs = "the 64-bit SSE4.1 kernel with three or more inputs and offset steps of 4 GiB or more (or negative ones)"
breaks = "the step between batches is computed with 32 bits"
features = ["c_sse41"]
rust = r"""
fn main() {
    let data: Vec<u8> = (0..8 * 256u32).map(|i| (i >> 3) as u8).collect();
    let inputs: Vec<*const u8> = data.chunks(256).map(|c| c.as_ptr()).collect();
    let key = [1u64, 2, 3, 4];
    for shift in 0..60 {
        let mut deltas = [0u64; 17];
        for i in 0..17 { deltas[i] = (i as u64) << shift; }
        let (mut a, mut b) = ([0u8; 256], [0u8; 256]);
        unsafe {
            use baokeshed::c64::ffi;
            ffi::baokeshed64_hash_many_portable(inputs.as_ptr(), 8, 2, key.as_ptr(), 1, deltas.as_ptr(), 0, 1, 2, a.as_mut_ptr());
            ffi::baokeshed64_hash_many_sse41(inputs.as_ptr(), 8, 2, key.as_ptr(), 1, deltas.as_ptr(), 0, 1, 2, b.as_mut_ptr());
        }
        assert!(a[..] == b[..], "step 2^{}", shift);
    }
}
"""
