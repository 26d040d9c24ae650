//! A long read-only stretch of memory with a repeating content, at the cost
//! of one period.

pub struct Long {
    base: *const u8,
    len: usize,
    period: usize,
}

unsafe impl Send for Long {}
unsafe impl Sync for Long {}

impl Long {
    pub fn new(content: &[u8], repeat: usize) -> Long {
        let period = content.len();
        assert_eq!(0, period % 4096);
        unsafe {
            let fd = libc::memfd_create(b"long\0".as_ptr() as *const libc::c_char, 0);
            assert!(fd >= 0);
            let mut at = 0;
            while at < period {
                let n = libc::write(fd, content.as_ptr().add(at) as *const libc::c_void, period - at);
                assert!(n > 0);
                at += n as usize;
            }
            let base = libc::mmap(
                std::ptr::null_mut(),
                period * repeat,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(base != libc::MAP_FAILED);
            for i in 0..repeat {
                let p = libc::mmap(
                    (base as *mut u8).add(i * period) as *mut libc::c_void,
                    period,
                    libc::PROT_READ,
                    libc::MAP_SHARED | libc::MAP_FIXED,
                    fd,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
            }
            libc::close(fd);
            Long { base: base as *const u8, len: period * repeat, period }
        }
    }
    /// The same memory again and again, as one long buffer.
    pub unsafe fn writable(&self, len: usize) -> &mut [u8] {
        assert!(len <= self.len);
        assert_eq!(0, libc::mprotect(self.base as *mut libc::c_void, self.len, libc::PROT_READ | libc::PROT_WRITE));
        std::slice::from_raw_parts_mut(self.base as *mut u8, len)
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
}

impl Drop for Long {
    fn drop(&mut self) {
        let _ = self.period;
        unsafe {
            libc::munmap(self.base as *mut libc::c_void, self.len);
        }
    }
}
