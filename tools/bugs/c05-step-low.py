id = "c05-step-low"
property = "C05"
needs = "a batch of more than eight inputs with AVX2 whose offsets cross a 4 GiB boundary between two groups of eight, with a step of 2^32 or more in total"
breaks = "the step between groups is computed with 32 bits"
edits = [("src/avx2.rs", "offset += DEGREE as u64 * offset_delta;", "offset += (DEGREE as u32).wrapping_mul(offset_delta as u32) as u64;")]
rust = r"""
fn main() {
    if !is_x86_feature_detected!("avx2") { return; }
    let blocks: Vec<[u8; 64]> = (0..20).map(|i| [i as u8; 64]).collect();
    let inputs: Vec<&[u8; 64]> = blocks.iter().collect();
    for delta in [0, 64, 2048, 1 << 29, 1 << 40] {
        let (mut a, mut b) = (vec![0; 640], vec![0; 640]);
        baokeshed::portable::hash_many(&inputs, &[7; 8], 0, delta, 0, 1, 2, &mut a);
        unsafe { baokeshed::avx2::hash_many(&inputs, &[7; 8], 0, delta, 0, 1, 2, &mut b) };
        assert!(a == b, "step {}", delta);
    }
}
"""
