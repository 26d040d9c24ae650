id = "c12-byte-blocks"
property = "C12"
needs = "the C SSE4.1 many-input function on a single input of more than 255 blocks"
breaks = "the block count of the inputs that do not fill a batch is a byte"
edits = [("c/baokeshed_sse41.c", """INLINE void hash_one_sse41(const uint8_t *input, size_t blocks,""", """INLINE void hash_one_sse41(const uint8_t *input, uint8_t blocks,""")]
features = ["c_sse41"]
rust = r"""
use baokeshed::c::ffi;
fn main() {
    if !is_x86_feature_detected!("sse4.1") {
        return;
    }
    let input = vec![3u8; 300 * 64];
    let inputs = [input.as_ptr(); 4];
    let key = [9u32; 8];
    let deltas = [0u64; 17];
    let (mut a, mut b) = ([0u8; 32], [0u8; 128]);
    unsafe {
        ffi::hash_many_sse41(inputs.as_ptr(), 1, 300, key.as_ptr(), 0, deltas.as_ptr(), 0, 1, 2, a.as_mut_ptr());
        ffi::hash_many_sse41(inputs.as_ptr(), 4, 300, key.as_ptr(), 0, deltas.as_ptr(), 0, 1, 2, b.as_mut_ptr());
    }
    assert!(a[..] == b[..32]);
}
"""
