//! What a call costs: executed instructions (trap flag) and stack.
//!
//! The limits are several times what today's code needs; what exceeds them is
//! growth, not style.

use crate::Res;

struct Count {
    on: bool,
    n: u64,
}
thread_local! {
    static COUNT: std::cell::UnsafeCell<Count> = const { std::cell::UnsafeCell::new(Count { on: false, n: 0 }) };
}

#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        COUNT.with(|c| {
            let c = &mut *c.get();
            c.n += 1;
            // Enough is enough.
            if !c.on || c.n > 60_000_000 {
                (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            }
        });
    }
}

/// The instructions `f` executes. They take about 6 µs each.
#[cfg(target_arch = "x86_64")]
#[inline(never)]
pub fn count<R>(f: impl FnOnce() -> R) -> (R, u64) {
    use std::arch::asm;
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    });
    COUNT.with(|c| unsafe { *c.get() = Count { on: true, n: 0 } });
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    COUNT.with(|c| unsafe {
        (*c.get()).on = false;
        (r, (*c.get()).n)
    })
}
#[cfg(not(target_arch = "x86_64"))]
pub fn count<R>(f: impl FnOnce() -> R) -> (R, u64) {
    (f(), 0)
}

// Instructions: per call, per byte, per level of the tree; per call of many.
pub const CALL: u64 = 12_000;
pub const BYTE: u64 = 80;
pub const LEVEL: u64 = 6_000;
pub const SMALL_CALL: u64 = 1_500;

pub fn limits() -> String {
    format!(
        "instructions: {} per call ({} if there are many) + {} per byte + {} per tree level; stack and heap: 96 KiB + 8 KiB per tree level, nothing kept",
        CALL, SMALL_CALL, BYTE, LEVEL
    )
}

pub fn levels(len: u64) -> u64 {
    64 - (len / crate::spec::CHUNK as u64).leading_zeros() as u64
}

/// `behind`: how much was hashed when it ends.
pub fn within(what: &str, n: u64, calls: u64, bytes: u64, behind: u64) -> Res {
    let limit = CALL + SMALL_CALL * (calls - 1) + BYTE * bytes + LEVEL * levels(behind);
    if n > limit {
        return Err(format!("{}: {} instructions; {} are allowed", what, n, limit));
    }
    Ok(())
}

/// Pieces of all shapes: whole chunks, parts of them, both, nothing.
pub fn pieces(len: usize) -> impl Iterator<Item = std::ops::Range<usize>> {
    const SIZES: [usize; 14] = [4096, 2048, 17 * 2048, 1, 2047, 0, 64, 1984, 8 * 2048, 5, 2043 + 2048, 100 * 2048, 2049, 4095];
    let mut at = 0;
    let mut i = 0;
    std::iter::from_fn(move || {
        if at == len {
            return None;
        }
        let n = std::cmp::min(SIZES[i % SIZES.len()], len - at);
        i += 1;
        at += n;
        Some(at - n..at)
    })
}

/// Bytes of stack or heap.
pub fn room(len: u64) -> u64 {
    (96 << 10) + (8 << 10) * levels(len)
}

pub const STACK: usize = 4 << 20;

/// How far down the stack, of STACK bytes, `f` reaches.
#[inline(never)]
pub fn lowest_touched(f: &mut dyn FnMut()) -> usize {
    const MARK: u64 = 0x5a5a_a5a5_1234_4321;
    // Everything below this frame.
    let mut local = 0u8;
    let here = std::hint::black_box(&mut local) as *mut u8 as usize;
    let top = (here - 4096) & !7;
    let bottom = (here - STACK + (256 << 10)) & !7;
    unsafe {
        let mut p = bottom;
        while p < top {
            (p as *mut u64).write_volatile(MARK);
            p += 8;
        }
    }
    f();
    unsafe {
        let mut p = bottom;
        while p < top && (p as *const u64).read_volatile() == MARK {
            p += 8;
        }
        here - p
    }
}

/// `f` on a thread with a stack of its own.
pub fn on_own_stack<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, String> {
    let slot = crate::slot();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                crate::adopt_slot(slot);
                f()
            })
            .expect("spawn")
            .join()
            .map_err(|_| "panicked".to_string())
    })
}

/// `f` in a process that may have `more` further bytes of memory for itself.
/// Returns by how much its memory has grown in the end.
pub fn in_little_memory(more: u64, f: impl FnOnce()) -> Result<u64, String> {
    fn data() -> u64 {
        // Without allocating.
        let mut buf = [0u8; 256];
        let n = unsafe {
            let fd = libc::open(b"/proc/self/statm\0".as_ptr() as *const libc::c_char, libc::O_RDONLY);
            let n = libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, 255);
            libc::close(fd);
            std::cmp::max(n, 0) as usize
        };
        let mut field = 0;
        let mut v = 0u64;
        for &b in &buf[..n] {
            match b {
                b' ' => field += 1,
                b'0'..=b'9' if field == 5 => v = v * 10 + (b - b'0') as u64,
                _ => {}
            }
        }
        v * 4096
    }
    let mut fds = [0; 2];
    assert_eq!(0, unsafe { libc::pipe(fds.as_mut_ptr()) });
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            for &sig in &[libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                libc::signal(sig, libc::SIG_DFL);
            }
            let before = data();
            let l = libc::rlimit { rlim_cur: before + more, rlim_max: before + more };
            libc::setrlimit(libc::RLIMIT_DATA, &l);
            f();
            let grown = data().saturating_sub(before).to_le_bytes();
            libc::write(fds[1], grown.as_ptr() as *const libc::c_void, 8);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut got = [0u8; 8];
        let n = libc::read(fds[0], got.as_mut_ptr() as *mut libc::c_void, 8);
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if n == 8 {
            Ok(u64::from_le_bytes(got))
        } else {
            Err(format!("a process with {} further KiB of memory for itself ended with status {:#x}", more >> 10, status))
        }
    }
}
