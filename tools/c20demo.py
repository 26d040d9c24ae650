DEMO = r'''
// On a processor without some extensions: CPUID faults and is answered by this
// program, and every instruction is looked at before it is executed.
use std::arch::x86_64::__cpuid_count;
use std::ffi::c_void;
use std::os::raw::{c_int, c_long};

// Taken away from leaf 1 ECX and leaf 7 EBX; what leaves beyond MAX answer.
const NO1: u32 = @NO1@;
const NO7: u32 = @NO7@;
const MAX: u32 = @MAX@;
const BEYOND: u32 = @BEYOND@;

fn forbidden(p: *const u8) -> bool {
    let b = |i: usize| unsafe { *p.add(i) };
    @FORBIDDEN@
}

extern "C" {
    fn sigaction(n: c_int, new: *const Action, old: *mut Action) -> c_int;
    fn syscall(n: c_long, a: c_long, b: c_long) -> c_long;
    static __executable_start: u8;
    static etext: u8;
}
#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}
static mut ON: bool = false;
static mut FOUND: [u8; 8] = [0; 8];

fn faulting(on: bool) -> bool {
    unsafe { syscall(158, 0x1012, !on as c_long) == 0 }
}

unsafe fn regs(ctx: *mut c_void) -> &'static mut [i64; 23] {
    &mut *((ctx as *mut u8).add(40) as *mut [i64; 23])
}
const RBX: usize = 11;
const RDX: usize = 12;
const RAX: usize = 13;
const RCX: usize = 14;
const RIP: usize = 16;
const EFL: usize = 17;

extern "C" fn segv(_: c_int, _: *mut c_void, ctx: *mut c_void) {
    unsafe {
        let g = regs(ctx);
        let p = g[RIP] as *const u8;
        if *p != 0x0f || *p.add(1) != 0xa2 {
            std::process::abort();
        }
        let (leaf, sub) = (g[RAX] as u32, g[RCX] as u32);
        faulting(false);
        let mut r = __cpuid_count(leaf, sub);
        faulting(true);
        match (leaf, sub) {
            (l, _) if l > MAX && l < 0x8000_0000 => {
                r.eax = BEYOND;
                r.ebx = BEYOND;
                r.ecx = BEYOND;
                r.edx = BEYOND;
            }
            (0, _) => r.eax = r.eax.min(MAX),
            (1, _) => r.ecx &= !NO1,
            (7, 0) => r.ebx &= !NO7,
            _ => {}
        }
        g[RAX] = r.eax as i64;
        g[RBX] = r.ebx as i64;
        g[RCX] = r.ecx as i64;
        g[RDX] = r.edx as i64;
        g[RIP] += 2;
    }
}

extern "C" fn trap(_: c_int, _: *mut c_void, ctx: *mut c_void) {
    unsafe {
        let g = regs(ctx);
        if !ON {
            g[EFL] &= !0x100;
            return;
        }
        let p = g[RIP] as usize;
        let text = std::ptr::addr_of!(__executable_start) as usize..std::ptr::addr_of!(etext) as usize;
        if text.contains(&p) && FOUND == [0; 8] && forbidden(p as *const u8) {
            FOUND = *(p as *const [u8; 8]);
        }
    }
}

fn main() {
    let data: Vec<u8> = (0..40_000u32).map(|i| (i % 251) as u8).collect();
    let lens = [3, 100, 2049, 20_000, 40_000];
    unsafe {
        let mut a = Action { handler: segv as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(11, &a, std::ptr::null_mut());
        a.handler = trap as *const () as usize;
        sigaction(5, &a, std::ptr::null_mut());
        if !faulting(true) {
            eprintln!("CPUID faulting is not available; nothing to show");
            return;
        }
        let mut digests = vec![];
        for &len in &lens {
            ON = true;
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            let d = baokeshed::hash(&data[..len]);
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            ON = false;
            digests.push(d);
        }
        let found = std::ptr::addr_of!(FOUND).read();
        if found != [0; 8] {
            eprintln!("executed an instruction this processor does not have: {:02x?}", found);
            std::process::exit(1);
        }
        for (d, &len) in digests.iter().zip(&lens) {
            let mut h = reference_impl::Hasher::new();
            h.update(&data[..len]);
            let mut out = [0; 32];
            h.finalize(&mut out);
            assert_eq!(out, *d.as_bytes());
        }
    }
}
'''
def demo(no1, no7, forbidden, max="u32::MAX >> 1", beyond="0"):
    return (DEMO.replace("@NO1@", no1).replace("@NO7@", no7).replace("@MAX@", max)
            .replace("@BEYOND@", beyond).replace("@FORBIDDEN@", forbidden))
