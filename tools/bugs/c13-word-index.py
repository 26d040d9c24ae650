id = "c13-word-index"
property = "C13"
needs = "the 64-bit AVX2 compression function with a block length above 127, i.e. a full block of 128 bytes"
breaks = "the block length is sign-extended from eight bits, so full blocks are compressed with a wrong length word"
edits = [("c64/baokeshed64_avx2.c", """set4(offset, IV[5], (uint64_t)block_len, (uint64_t)flags);""",
"""set4(offset, IV[5], (uint64_t)(int8_t)block_len, (uint64_t)flags);""")]
features = ["c_avx2"]
rust = r"""
fn main() {
    let block: Vec<u8> = (0..128).collect();
    for block_len in 0..=128u8 {
        let (mut a, mut b) = ([1u64, 2, 3, 4], [1u64, 2, 3, 4]);
        unsafe {
            use baokeshed::c64::ffi;
            ffi::baokeshed64_compress_portable(a.as_mut_ptr(), block.as_ptr(), block_len, 4096, 3);
            ffi::baokeshed64_compress_avx2(b.as_mut_ptr(), block.as_ptr(), block_len, 4096, 3);
        }
        assert_eq!(a, b, "block length {}", block_len);
    }
}
"""
