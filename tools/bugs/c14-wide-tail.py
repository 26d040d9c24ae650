id = "c14-wide-tail"
property = "C14"
needs = "a one-shot input whose last block is partial and which ends right before an inaccessible page"
breaks = "the last block is loaded whole and masked afterwards, which reads up to 63 bytes behind the input"
edits = [("src/lib.rs", """    let mut last_block = [0; BLOCK_LEN];
    last_block[..block_len].copy_from_slice(&chunk[block_offset..]);
    Output {""", """    let mut last_block = [0; BLOCK_LEN];
    if block_len > BLOCK_LEN / 2 {
        // A single wide load is faster than a copy of variable length.
        last_block = unsafe { core::ptr::read_volatile(chunk[block_offset..].as_ptr() as *const [u8; BLOCK_LEN]) };
        for b in &mut last_block[block_len..] {
            *b = 0;
        }
    } else {
        last_block[..block_len].copy_from_slice(&chunk[block_offset..]);
    }
    Output {""")]
GUARD = r"""
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
// len bytes right before an inaccessible page.
fn guarded(len: usize) -> &'static mut [u8] {
    let room = (len + 4095) / 4096 * 4096;
    unsafe {
        let p = mmap(std::ptr::null_mut(), room + 4096, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert_eq!(mprotect(p.add(room), 4096, 0), 0);
        std::slice::from_raw_parts_mut(p.add(room - len), len)
    }
}
"""
rust = GUARD + r"""
fn main() {
    for len in 0..300 {
        let input = guarded(len);
        let copy = input.to_vec();
        assert_eq!(baokeshed::hash(input), baokeshed::hash(&copy));
    }
}
"""
