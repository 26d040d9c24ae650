//! Traces of executed instructions and of the memory they name.

use std::alloc::GlobalAlloc;
use std::cell::UnsafeCell;

// The traced thread sets the processor's trap flag: every instruction then
// raises SIGTRAP, whose handler folds the instruction pointer into a hash, and
// into another one the address of the memory operand of the instruction that
// comes next. The signal is delivered to the thread that caused it, so each
// thread traces itself. What is traced runs on a stack of its own, so that its
// frames lie at the same addresses however deep the caller was; the caller's
// frames are left out.

/// The number of instructions, and hashes of their addresses and of the
/// addresses of their memory operands.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Steps {
    pub count: u64,
    pub code: u64,
    pub data: u64,
}

impl Steps {
    /// What differs between two traces, or None.
    pub fn differs(&self, other: &Steps) -> Option<String> {
        if (self.count, self.code) != (other.count, other.code) {
            return Some(format!(
                "executes {} instructions for one secret and {} for another (trace hashes {:x} {:x})",
                self.count, other.count, self.code, other.code
            ));
        }
        if self.data != other.data {
            return Some(format!("executes the same {} instructions for two secrets, on memory at different addresses", self.count));
        }
        None
    }
}

struct Trace {
    on: bool,
    steps: Steps,
    /// The caller's frames.
    above: (u64, u64),
    stack: Vec<u8>,
}

thread_local! {
    static TRACE: UnsafeCell<Trace> = const { UnsafeCell::new(Trace { on: false, steps: Steps { count: 0, code: 0, data: 0 }, above: (0, 0), stack: Vec::new() }) };
}

const SEED: u64 = 0xcbf29ce484222325;

fn fold(hash: u64, x: u64) -> u64 {
    (hash ^ x).wrapping_mul(0x100000001b3).rotate_left(5)
}

/// The address of the memory an instruction names, if it names any by
/// registers. Vector indices count as zero, and the displacement of an AVX512
/// instruction as unscaled: that is the same for every execution.
#[cfg(target_arch = "x86_64")]
unsafe fn operand(start: *const u8, gregs: &[libc::greg_t]) -> Option<u64> {
    const REGS: [libc::c_int; 16] = [
        libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI, libc::REG_RDI,
        libc::REG_R8, libc::REG_R9, libc::REG_R10, libc::REG_R11, libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
    ];
    let reg = |n: u8| gregs[REGS[n as usize] as usize] as u64;
    let mut p = start;
    for _ in 0..14 {
        match *p {
            0x66 | 0xf2 | 0xf3 | 0x26 | 0x2e | 0x36 | 0x3e | 0x64 | 0x65 | 0x67 | 0xf0 => p = p.add(1),
            _ => break,
        }
    }
    let mut rex = 0u8; // xb in the two low bits
    if *p & 0xf0 == 0x40 {
        rex = *p & 3;
        p = p.add(1);
    }
    let mut vector_index = false;
    let modrm = match *p {
        0xc5 => {
            if *p.add(2) == 0x77 {
                return None;
            }
            p.add(3)
        }
        0xc4 | 0x62 => {
            let evex = *p == 0x62;
            let b1 = *p.add(1);
            rex = (!b1 >> 5) & 3;
            let op = p.add(if evex { 4 } else { 3 });
            let map = b1 & if evex { 7 } else { 31 };
            if map == 1 && *op == 0x77 {
                return None;
            }
            vector_index = map == 2 && matches!(*op, 0x90..=0x93 | 0xa0..=0xa3);
            op.add(1)
        }
        0x0f => match *p.add(1) {
            0x38 | 0x3a => p.add(3),
            0x05..=0x09 | 0x0b | 0x0e | 0x19..=0x1f | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf => return None,
            _ => p.add(2),
        },
        // Strings.
        0xa4..=0xa7 => return Some(fold(reg(6), reg(7))),
        0xaa | 0xab | 0xae | 0xaf => return Some(reg(7)),
        0xac | 0xad => return Some(reg(6)),
        0xd7 => return Some(reg(3).wrapping_add(reg(0) & 0xff)),
        0x00..=0x3f if *p & 7 < 4 => p.add(1),
        0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0x8e | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => p.add(1),
        _ => return None,
    };
    let (md, rm) = (*modrm >> 6, *modrm & 7);
    if md == 3 {
        return None;
    }
    let mut rest = modrm.add(1);
    let mut at = 0u64;
    let mut wide = md == 2;
    if rm == 4 {
        let sib = *rest;
        rest = rest.add(1);
        let index = (sib >> 3) & 7 | (rex & 2) << 2;
        if index != 4 && !vector_index {
            at = at.wrapping_add(reg(index) << (sib >> 6));
        }
        if sib & 7 == 5 && md == 0 {
            wide = true;
        } else {
            at = at.wrapping_add(reg(sib & 7 | (rex & 1) << 3));
        }
    } else if rm == 5 && md == 0 {
        wide = true; // relative to the instruction
    } else {
        at = at.wrapping_add(reg(rm | (rex & 1) << 3));
    }
    if wide {
        at = at.wrapping_add(std::ptr::read_unaligned(rest as *const i32) as i64 as u64);
    } else if md == 1 {
        at = at.wrapping_add(*(rest as *const i8) as i64 as u64);
    }
    Some(at)
}

#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        let gregs = &mut (*uc).uc_mcontext.gregs;
        let rip = gregs[libc::REG_RIP as usize] as u64;
        TRACE.with(|t| {
            let t = &mut *t.get();
            if !t.on {
                gregs[libc::REG_EFL as usize] &= !0x100;
                return;
            }
            t.steps.count += 1;
            t.steps.code = fold(t.steps.code, rip);
            if let Some(at) = operand(rip as *const u8, gregs) {
                if at < t.above.0 || at >= t.above.1 {
                    t.steps.data = fold(t.steps.data, at);
                }
            }
        });
    }
}

#[cfg(target_arch = "x86_64")]
struct Call<F, R> {
    f: Option<F>,
    r: Option<std::thread::Result<R>>,
}

#[cfg(target_arch = "x86_64")]
extern "C" fn traced<F: FnOnce() -> R, R>(call: *mut Call<F, R>) {
    use std::arch::asm;
    unsafe {
        let f = (*call).f.take().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            let r = f();
            asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            r
        }));
        // After a panic the trap flag is still set: the handler clears it.
        TRACE.with(|t| (*t.get()).on = false);
        (*call).r = Some(r);
    }
}

// Heap memory of the traced code comes from an arena that every trace starts
// anew, so that the allocator's history is not part of a trace.
const ARENA: usize = 16 << 20;

struct Arena {
    on: bool,
    start: usize,
    used: usize,
}

thread_local! {
    static HEAP: UnsafeCell<Arena> = const { UnsafeCell::new(Arena { on: false, start: 0, used: 0 }) };
}

/// For a global allocator: memory for the code being traced.
#[inline]
pub fn arena_alloc(l: std::alloc::Layout) -> Option<*mut u8> {
    HEAP.try_with(|h| unsafe {
        let h = &mut *h.get();
        if !h.on {
            return None;
        }
        let at = (h.used + l.align() - 1) & !(l.align() - 1);
        if at + l.size() > ARENA {
            return None;
        }
        h.used = at + l.size();
        Some((h.start + at) as *mut u8)
    })
    .unwrap_or(None)
}

/// Whether some memory is of the arena, and so is not to be freed.
#[inline]
pub fn arena_owns(p: *mut u8) -> bool {
    HEAP.try_with(|h| unsafe {
        let h = &*h.get();
        h.start != 0 && (p as usize).wrapping_sub(h.start) < ARENA
    })
    .unwrap_or(false)
}

fn arena(on: bool) {
    HEAP.with(|h| unsafe {
        let h = &mut *h.get();
        if h.start == 0 {
            let l = std::alloc::Layout::from_size_align(ARENA, 4096).unwrap();
            h.start = std::alloc::System.alloc_zeroed(l) as usize;
        }
        h.on = on && h.start != 0;
        if on {
            h.used = 0;
        }
    });
}

/// The result, and what was executed.
#[cfg(target_arch = "x86_64")]
#[inline(never)]
pub fn trace<R, F: FnOnce() -> R>(f: F) -> (R, Steps) {
    use std::arch::asm;
    const STACK: usize = 1 << 20;
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    });
    let mut call = Call { f: Some(f), r: None };
    let top = TRACE.with(|t| unsafe {
        let t = &mut *t.get();
        if t.stack.is_empty() {
            t.stack = vec![0; STACK];
        }
        t.on = true;
        t.steps = Steps { count: 0, code: SEED, data: SEED };
        let here = &call as *const _ as u64;
        t.above = (here.saturating_sub(1 << 14), here + (8 << 20));
        (t.stack.as_mut_ptr() as usize + STACK) & !4095
    });
    arena(true);
    unsafe {
        asm!(
            "mov r12, rsp",
            "mov rsp, {top}",
            "call {f}",
            "mov rsp, r12",
            top = in(reg) top,
            f = in(reg) traced::<F, R> as extern "C" fn(*mut Call<F, R>) as usize,
            in("rdi") &mut call as *mut Call<F, R>,
            out("r12") _,
            clobber_abi("C"),
        );
    }
    arena(false);
    let steps = TRACE.with(|t| unsafe { (*t.get()).steps });
    match call.r.unwrap() {
        Ok(r) => (r, steps),
        Err(e) => std::panic::resume_unwind(e),
    }
}
