id = "c05-lane-byte"
property = "C05"
needs = "the SSE4.1 many-input function on more than 256 inputs"
breaks = "the inputs hashed so far are counted in a byte, so the offset starts over after 256 of them"
edits = [("src/sse41.rs", """    debug_assert!(out.len() >= inputs.len() * OUT_LEN, "out too short");
    while""", """    debug_assert!(out.len() >= inputs.len() * OUT_LEN, "out too short");
    let first_offset = offset;
    let mut done = 0u8;
    while"""), ("src/sse41.rs", """        offset += DEGREE as u64 * offset_delta;
""", """        done = done.wrapping_add(DEGREE as u8);
        offset = first_offset + done as u64 * offset_delta;
""")]
rust = r"""
fn main() {
    if !is_x86_feature_detected!("sse4.1") {
        return;
    }
    let input = [3u8; 64];
    let inputs = vec![&input; 300];
    let key = [9u32; 8];
    let (mut a, mut b) = (vec![0u8; 300 * 32], vec![0u8; 300 * 32]);
    baokeshed::portable::hash_many(&inputs, &key, 0, 64, 0, 1, 2, &mut a);
    unsafe { baokeshed::sse41::hash_many(&inputs, &key, 0, 64, 0, 1, 2, &mut b) };
    assert!(a == b);
}
"""
