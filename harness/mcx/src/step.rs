//! One thread interrupted at every instruction by another thread's whole
//! operation.
//!
//! The stepped thread runs with the processor's trap flag set: each
//! instruction raises SIGTRAP, whose handler asks a helper thread for one
//! complete run of the other operation and waits for it.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(false);
static INDEX: AtomicU64 = AtomicU64::new(0);
static FROM: AtomicU64 = AtomicU64::new(0);
static TO: AtomicU64 = AtomicU64::new(0);
static STRIDE: AtomicU64 = AtomicU64::new(1);
static ASKED: AtomicU64 = AtomicU64::new(0);
static ANSWERED: AtomicU64 = AtomicU64::new(0);
static STUCK: AtomicU64 = AtomicU64::new(0);
static SKIPPED: AtomicU64 = AtomicU64::new(0);
const STOP: u64 = u64::MAX;

fn now_ns() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

fn pause(spins: &mut u32) {
    *spins += 1;
    if *spins < 2000 {
        std::hint::spin_loop();
    } else {
        unsafe { libc::sched_yield() };
    }
}

// The other thread runs its operation once, or is found to be blocked by the
// interrupted one.
fn interrupt() {
    if ASKED.load(SeqCst) != ANSWERED.load(SeqCst) || STUCK.load(SeqCst) > 20 {
        SKIPPED.fetch_add(1, SeqCst);
        return;
    }
    let n = ASKED.fetch_add(1, SeqCst) + 1;
    let mut spins = 0;
    let mut start = 0;
    while ANSWERED.load(SeqCst) != n {
        pause(&mut spins);
        if spins % 4096 == 0 {
            let t = now_ns();
            if start == 0 {
                start = t;
            } else if t - start > 100_000_000 {
                STUCK.fetch_add(1, SeqCst);
                return;
            }
        }
    }
}

#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let errno = *libc::__errno_location();
        let gregs = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let i = INDEX.fetch_add(1, SeqCst);
        let (from, to) = (FROM.load(SeqCst), TO.load(SeqCst));
        if !ON.load(SeqCst) || i >= to {
            gregs[libc::REG_EFL as usize] &= !0x100;
        } else if i >= from && (i - from) % STRIDE.load(SeqCst) == 0 {
            interrupt();
        }
        *libc::__errno_location() = errno;
    }
}

#[cfg(target_arch = "x86_64")]
#[inline(never)]
fn stepped<R>(op: &dyn Fn() -> R) -> R {
    use std::arch::asm;
    ON.store(true, SeqCst);
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = op();
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    ON.store(false, SeqCst);
    r
}

pub struct Stepped<R> {
    pub instructions: u64,
    pub interrupted: u64,
    pub skipped: u64,
    /// What the interrupted operation came to.
    pub got: Option<R>,
    /// The first wrong result of the other one, and the instruction it ran at.
    pub wrong: Option<(u64, R)>,
}

/// Operation `a`, interrupted by `b`, which is to give `want_b`, at every
/// `stride`th of its instructions from..to. Neither may allocate. Each thread
/// calls `init` first.
#[cfg(target_arch = "x86_64")]
pub fn run<R: PartialEq + Send + Sync>(
    init: &(dyn Fn() + Sync),
    a: &(dyn Fn() -> R + Sync),
    b: &(dyn Fn() -> R + Sync),
    want_b: &R,
    from: u64,
    to: u64,
    stride: u64,
) -> Stepped<R> {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    for x in [&INDEX, &ASKED, &ANSWERED, &STUCK, &SKIPPED] {
        x.store(0, SeqCst);
    }
    FROM.store(from, SeqCst);
    TO.store(to, SeqCst);
    STRIDE.store(stride.max(1), SeqCst);
    let mut wrong_b: Option<(u64, R)> = None;
    let mut got_a = None;
    std::thread::scope(|s| {
        let wrong_b = &mut wrong_b;
        let helper = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(s, move || {
                init();
                let mut done = 0;
                let mut spins = 0;
                loop {
                    let n = ASKED.load(SeqCst);
                    if n == STOP {
                        break;
                    }
                    if n == done {
                        pause(&mut spins);
                        continue;
                    }
                    spins = 0;
                    let r = b();
                    if r != *want_b && wrong_b.is_none() {
                        *wrong_b = Some((n, r));
                    }
                    done = n;
                    ANSWERED.store(n, SeqCst);
                }
            })
            .expect("spawn");
        let got = &mut got_a;
        let stepper = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(s, move || {
                init();
                *got = Some(stepped(a));
            })
            .expect("spawn");
        let r = stepper.join();
        ON.store(false, SeqCst);
        // A blocked helper is free now; let it finish what it was asked.
        let asked = ASKED.load(SeqCst);
        let start = now_ns();
        while ANSWERED.load(SeqCst) != asked && !helper.is_finished() && now_ns() - start < 5_000_000_000 {
            std::thread::yield_now();
        }
        ASKED.store(STOP, SeqCst);
        let h = helper.join();
        if let Err(p) = r.and(h) {
            std::panic::resume_unwind(p);
        }
    });
    let skipped = SKIPPED.load(SeqCst) + STUCK.load(SeqCst);
    let instructions = INDEX.load(SeqCst);
    Stepped {
        instructions,
        interrupted: ((to.min(instructions)).saturating_sub(from) + stride.max(1) - 1) / stride.max(1),
        skipped,
        got: got_a,
        wrong: wrong_b.map(|(n, r)| (from + (n - 1) * stride.max(1), r)),
    }
}
