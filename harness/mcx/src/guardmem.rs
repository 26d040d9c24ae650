//! Memory with unmapped pages on both sides.

pub struct Guarded {
    base: *mut u8,
    total: usize,
    pages: usize,
}

unsafe impl Send for Guarded {}
unsafe impl Sync for Guarded {}

const PAGE: usize = 4096;

impl Guarded {
    pub fn new(bytes: usize) -> Guarded {
        let pages = (bytes + PAGE - 1) / PAGE * PAGE;
        let pages = std::cmp::max(pages, PAGE);
        let total = pages + 2 * PAGE;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let g = Guarded { base: p as *mut u8, total, pages };
            g.protect(true);
            g
        }
    }
    pub fn protect(&self, writable: bool) {
        let prot = libc::PROT_READ | if writable { libc::PROT_WRITE } else { 0 };
        let r = unsafe { libc::mprotect(self.base.add(PAGE) as *mut libc::c_void, self.pages, prot) };
        assert_eq!(0, r);
    }
    pub fn len(&self) -> usize {
        self.pages
    }
    /// The whole usable area.
    pub fn all(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(PAGE), self.pages) }
    }
    /// `n` bytes ending right before the unmapped page.
    pub fn end(&self, n: usize) -> &mut [u8] {
        assert!(n <= self.pages);
        unsafe { std::slice::from_raw_parts_mut(self.base.add(PAGE + self.pages - n), n) }
    }
    /// `n` bytes starting right after the unmapped page.
    pub fn start(&self, n: usize) -> &mut [u8] {
        assert!(n <= self.pages);
        unsafe { std::slice::from_raw_parts_mut(self.base.add(PAGE), n) }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut libc::c_void, self.total);
        }
    }
}

/// Overwrite the stack below the caller with a byte.
#[inline(never)]
pub fn paint_stack(byte: u8) {
    let mut a = [byte; 48 << 10];
    std::hint::black_box(&mut a);
}
