import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) if "__file__" in globals() else "/verif/tools")
from c20demo import demo
id = "c20-avx-encoding"
property = "C20"
needs = "a processor with AVX under an operating system that does not enable it (OSXSAVE clear)"
breaks = "single compressions are done with AVX encoded instructions whenever CPUID lists AVX, without asking whether the operating system saves the registers"
edits = [("src/sse41.rs", """#[target_feature(enable = "sse4.1")]
pub unsafe fn compress(
    cv: &mut [Word; 8],
    block: &[u8; BLOCK_LEN],
    block_len: u8,
    offset: u64,
    flags: u8,
) {
    let [row1""", """// The three operand encoding saves a few moves.
#[target_feature(enable = "avx")]
unsafe fn compress_avx(
    cv: &mut [Word; 8],
    block: &[u8; BLOCK_LEN],
    block_len: u8,
    offset: u64,
    flags: u8,
) {
    let [row1, row2, row3, row4] = compress_inner(cv, block, block_len, offset, flags);
    storeu(xor(row1, row3), cv.as_mut_ptr().add(0) as *mut u8);
    storeu(xor(row2, row4), cv.as_mut_ptr().add(4) as *mut u8);
}

#[cfg(target_arch = "x86_64")]
fn has_avx() -> bool {
    use std::sync::atomic::{AtomicU8, Ordering};
    static KNOWN: AtomicU8 = AtomicU8::new(2);
    match KNOWN.load(Ordering::Relaxed) {
        2 => {
            #[allow(unused_unsafe)]
            let avx = unsafe { core::arch::x86_64::__cpuid(1) }.ecx >> 28 & 1;
            KNOWN.store(avx as u8, Ordering::Relaxed);
            avx == 1
        }
        known => known == 1,
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn has_avx() -> bool {
    false
}

#[target_feature(enable = "sse4.1")]
pub unsafe fn compress(
    cv: &mut [Word; 8],
    block: &[u8; BLOCK_LEN],
    block_len: u8,
    offset: u64,
    flags: u8,
) {
    if has_avx() {
        return compress_avx(cv, block, block_len, offset, flags);
    }
    let [row1""")]
rust = demo("1 << 27", "0", "matches!(b(0), 0xc4 | 0xc5)")
release = True
