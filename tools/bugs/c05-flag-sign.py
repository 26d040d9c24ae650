id = "c05-flag-sign"
property = "C05"
needs = "the AVX2 eight-way kernel with the top bit of the flags byte set"
breaks = "the flags byte is sign-extended, so the AVX2 kernel disagrees with the others"
edits = [("src/avx2.rs", """        let block_flags_vec = set1(block_flags as Word);""", """        let block_flags_vec = _mm256_set1_epi32(i32::from(block_flags as i8));""")]
rust = r"""
fn main() {
    let data: Vec<u8> = (0..8 * 2048u32).map(|i| (i >> 3) as u8).collect();
    let inputs: Vec<&[u8; 2048]> = data.chunks(2048).map(|c| c.try_into().unwrap()).collect();
    let key = [1u32, 2, 3, 4, 5, 6, 7, 8];
    for bit in 0..8 {
        let flags = 1u8 << bit;
        let (mut a, mut b) = ([0u8; 256], [0u8; 256]);
        baokeshed::portable::hash_many(&inputs, &key, 4096, 2048, flags, 1, 2, &mut a);
        if std::is_x86_feature_detected!("avx2") {
            unsafe { baokeshed::avx2::hash_many(&inputs, &key, 4096, 2048, flags, 1, 2, &mut b) };
            assert!(a[..] == b[..], "flags {:#x}", flags);
        }
    }
}
"""
