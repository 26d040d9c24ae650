id = "c13-rust-hash2"
property = "C13"
needs = "the two-way SSE4.1 64-bit kernel called from Rust at an offset of 4 GiB or more"
breaks = "the Rust declaration of hash2_sse41 passes the offset as 32 bits"
edits = [("src/c64.rs", """        pub fn baokeshed64_hash2_sse41(
            inputs: *const *const u8,
            blocks: usize,
            key_words: *const u64,
            offset: u64,
            offset_deltas: *const u64,
            flags: u8,
            flags_start: u8,
            flags_end: u8,
""", """        pub fn baokeshed64_hash2_sse41(
            inputs: *const *const u8,
            blocks: usize,
            key_words: *const u64,
            offset: u32,
            offset_deltas: *const u64,
            flags: u8,
            flags_start: u8,
            flags_end: u8,
""")]
features = ["c_sse41"]
rust = r"""
use baokeshed::c64::ffi;
fn main() {
    if !is_x86_feature_detected!("sse4.1") {
        return;
    }
    let input = [3u8; 128];
    let inputs = [input.as_ptr(); 2];
    let key = [9u64; 4];
    let offset: u64 = 5 << 32;
    let (mut a, mut b) = ([0u8; 64], [0u8; 64]);
    unsafe {
        ffi::baokeshed64_hash_many_portable(inputs.as_ptr(), 2, 1, key.as_ptr(), offset as _, [0u64; 17].as_ptr(), 0, 1, 2, a.as_mut_ptr());
        ffi::baokeshed64_hash2_sse41(inputs.as_ptr(), 1, key.as_ptr(), offset as _, [0u64; 17].as_ptr(), 0, 1, 2, b.as_mut_ptr());
    }
    assert!(a == b, "hash2_sse41 from Rust differs from hash_many_portable");
}
"""
