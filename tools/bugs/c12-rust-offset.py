id = "c12-rust-offset"
property = "C12"
needs = "the AVX2 batch kernel called from Rust at an offset of 4 GiB or more"
breaks = "the Rust declaration of hash8_avx2 passes the offset as 32 bits"
edits = [("src/c.rs", """        pub fn hash8_avx2(
            inputs: *const *const u8,
            blocks: usize,
            key_words: *const u32,
            offset: u64,
""", """        pub fn hash8_avx2(
            inputs: *const *const u8,
            blocks: usize,
            key_words: *const u32,
            offset: u32,
""")]
features = ["c_avx2"]
rust = r"""
use baokeshed::c::ffi;
fn main() {
    if !is_x86_feature_detected!("avx2") {
        return;
    }
    let input = [3u8; 64];
    let inputs = [input.as_ptr(); 8];
    let key = [9u32; 8];
    let offset: u64 = 5 << 32;
    let (mut a, mut b) = ([0u8; 256], [0u8; 256]);
    unsafe {
        ffi::hash_many_portable(inputs.as_ptr(), 8, 1, key.as_ptr(), offset as _, [0u64; 17].as_ptr(), 0, 1, 2, a.as_mut_ptr());
        ffi::hash8_avx2(inputs.as_ptr(), 1, key.as_ptr(), offset as _, [0u64; 17].as_ptr(), 0, 1, 2, b.as_mut_ptr());
    }
    assert!(a == b, "hash8_avx2 from Rust differs from hash_many_portable");
}
"""
