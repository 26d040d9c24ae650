//! Only instructions the processor has are executed.
//!
//! A processor is described by what its CPUID instruction answers. The answers
//! are enumerated: a child process runs with CPUID faulting on, so that every
//! CPUID raises SIGSEGV and is answered from the description, and with the trap
//! flag set while the library works, so that each instruction it executes is
//! decoded and compared with the description.

use crate::common::*;
use mcx::{spec, Ctx, Res};

/// The first processors to have what, cumulatively.
pub const LEVELS: u64 = 10;
const NAMES: [&str; LEVELS as usize] =
    ["SSE2", "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "AVX", "FMA/BMI1", "AVX2/BMI2", "AVX-512F", "everything here"];

const SSE3: u32 = 1;
const SSSE3: u32 = 1 << 1;
const SSE41: u32 = 1 << 2;
const SSE42: u32 = 1 << 3;
const POPCNT: u32 = 1 << 4;
const AES: u32 = 1 << 5;
const AVX: u32 = 1 << 6;
const FMA: u32 = 1 << 7;
const F16C: u32 = 1 << 8;
const BMI1: u32 = 1 << 9;
const AVX2: u32 = 1 << 10;
const BMI2: u32 = 1 << 11;
const AVX512: u32 = 1 << 12;
const LZCNT: u32 = 1 << 13;
const MOVBE: u32 = 1 << 14;
const SHA: u32 = 1 << 15;
const ADX: u32 = 1 << 16;
const EXT: [&str; 17] = [
    "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "POPCNT", "AES", "AVX", "FMA", "F16C", "BMI1", "AVX2", "BMI2", "AVX-512",
    "LZCNT", "MOVBE", "SHA", "ADX",
];

// What a level adds: bits of leaf 1 ECX, leaf 7 EBX and leaf 0x80000001 ECX.
fn level_bits(level: u64) -> (u32, u32, u32) {
    let steps: [(u32, u32, u32); 9] = [
        (0, 0, 0),
        (1, 0, 0),
        (1 << 9, 0, 0),
        (1 << 19, 0, 0),
        (1 << 20 | 1 << 23, 0, 0),
        (1 << 1 | 1 << 25 | 1 << 26 | 1 << 27 | 1 << 28, 0, 0),
        (1 << 12 | 1 << 29, 1 << 3, 0),
        (1 << 22, 1 << 5 | 1 << 8, 1 << 5),
        (0, 1 << 16, 0),
    ];
    let mut all = (0, 0, 0);
    for s in &steps[..=std::cmp::min(level, 8) as usize] {
        all = (all.0 | s.0, all.1 | s.1, all.2 | s.2);
    }
    if level >= 9 {
        all = (!0, !0, !0);
    } else {
        // Whatever is not about instructions stays.
        all.0 |= !(1 | 1 << 1 | 1 << 9 | 1 << 12 | 1 << 19 | 1 << 20 | 1 << 22 | 1 << 23 | 1 << 25 | 1 << 26 | 1 << 27 | 1 << 28 | 1 << 29 | 1 << 30);
    }
    all
}

/// Bits that can be taken from a processor alone: an index into this.
pub const SINGLES: &[(u32, u32)] = &[
    (1, 0), (1, 9), (1, 12), (1, 19), (1, 20), (1, 23), (1, 25), (1, 27), (1, 28), (1, 29),
    (7, 3), (7, 5), (7, 8), (7, 16), (7, 31), (1, 22), (1, 26),
];

#[derive(Clone, Copy)]
struct Cpu {
    ecx1: u32,
    ebx7: u32,
    ecx81: u32,
    max_leaf: u32,
    vendor: u32,
    /// What leaves beyond the last one answer: Intel's repeat the last.
    beyond: u32,
    has: u32,
}

fn describe(a: &[u64], real: (u32, u32, u32, u32)) -> Cpu {
    let (e1, b7, e81) = level_bits(a[0]);
    let (mut ecx1, mut ebx7, mut ecx81) = (real.1 & e1, real.2 & b7, real.3 & e81);
    if a[1] == 1 {
        // The operating system doesn't save the wide registers.
        ecx1 &= !(1 << 27);
    }
    let max_leaf = match a[2] {
        0 => real.0,
        1 | 3 => 6,
        _ => 1,
    };
    let beyond = if a[2] == 3 { !0 } else { 0 };
    if a[4] > 0 {
        // Taken away alone, together with what is built on it.
        let (leaf, bit) = SINGLES[a[4] as usize - 1];
        if leaf == 1 {
            ecx1 &= !(1 << bit);
        } else {
            ebx7 &= !(1 << bit);
        }
        let order = [0u32, 9, 19, 20, 28];
        if leaf == 1 && order.contains(&bit) {
            let from = order.iter().position(|b| *b == bit).unwrap();
            for b in &order[from..] {
                ecx1 &= !(1 << b);
            }
        }
        if ecx1 & (1 << 26) == 0 {
            ecx1 &= !(1 << 27 | 1 << 28);
        }
        if ecx1 & (1 << 28) == 0 {
            ecx1 &= !(1 << 12 | 1 << 29);
            ebx7 &= !(1 << 5 | 1 << 16 | 1 << 31);
        }
        if ebx7 & (1 << 5) == 0 {
            ebx7 &= !(1 << 16 | 1 << 31);
        }
        if ebx7 & (1 << 16) == 0 {
            ebx7 &= !(1 << 31);
        }
        ecx81 &= if ebx7 & (1 << 8) == 0 { !(1 << 5) } else { !0 };
    }
    let mut has = 0;
    let bit = |x: u32, b: u32| x >> b & 1 == 1;
    let leaf7 = max_leaf >= 7;
    let wide = bit(ecx1, 26) && bit(ecx1, 27) && bit(ecx1, 28);
    let mut put = |c: bool, e: u32| if c { has |= e };
    put(bit(ecx1, 0), SSE3);
    put(bit(ecx1, 9), SSSE3);
    put(bit(ecx1, 19), SSE41);
    put(bit(ecx1, 20), SSE42);
    put(bit(ecx1, 23), POPCNT);
    put(bit(ecx1, 22), MOVBE);
    put(bit(ecx1, 25), AES);
    put(wide, AVX);
    put(wide && bit(ecx1, 12), FMA);
    put(wide && bit(ecx1, 29), F16C);
    put(leaf7 && bit(ebx7, 3), BMI1);
    put(leaf7 && wide && bit(ebx7, 5), AVX2);
    put(leaf7 && bit(ebx7, 8), BMI2);
    put(leaf7 && wide && bit(ebx7, 16) && bit(ebx7, 31), AVX512);
    put(leaf7 && bit(ebx7, 29), SHA);
    put(leaf7 && bit(ebx7, 19), ADX);
    put(bit(ecx81, 5), LZCNT);
    Cpu { ecx1, ebx7, ecx81, max_leaf, vendor: a[3] as u32, beyond, has }
}

/// The extension an instruction needs, 0 for the common base.
#[cfg(target_arch = "x86_64")]
unsafe fn needs(mut p: *const u8) -> u32 {
    let mut osize = false;
    let mut rep = 0u8;
    for _ in 0..14 {
        match *p {
            0x66 => osize = true,
            0xf2 | 0xf3 => rep = *p,
            0x26 | 0x2e | 0x36 | 0x3e | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        p = p.add(1);
    }
    if *p & 0xf0 == 0x40 {
        p = p.add(1);
    }
    match *p {
        0xc5 | 0xc4 => {
            let (map, last, q) = if *p == 0xc5 { (1, *p.add(1), p.add(2)) } else { (*p.add(1) & 31, *p.add(2), p.add(3)) };
            let (wide, pp, op) = (last & 4 != 0, last & 3, *q);
            let register = *q.add(1) >> 6 == 3;
            match map {
                2 if matches!(op, 0xf2 | 0xf3) || op == 0xf7 && pp == 0 => BMI1,
                2 if matches!(op, 0xf5 | 0xf6 | 0xf7) => BMI2,
                3 if op == 0xf0 => BMI2,
                2 if matches!(op, 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf) => FMA,
                2 if op == 0x13 => F16C,
                3 if op == 0x1d => F16C,
                2 if matches!(op, 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 | 0x16 | 0x36) => AVX2,
                2 if matches!(op, 0x18 | 0x19) && register => AVX2,
                2 if wide && matches!(op, 0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x2b | 0x30..=0x41) => AVX2,
                3 if matches!(op, 0x00..=0x02 | 0x38 | 0x39 | 0x46) => AVX2,
                3 if wide && matches!(op, 0x0e | 0x0f | 0x42 | 0x4c) => AVX2,
                1 if wide && op == 0x70 => AVX2,
                1 if wide && pp == 1 && matches!(op, 0x60..=0x6d | 0x71..=0x76 | 0xd1..=0xd5 | 0xd7..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe) => AVX2,
                _ => AVX,
            }
        }
        0x62 => AVX512,
        0x0f => match *p.add(1) {
            0x38 => match *p.add(2) {
                0x00..=0x0b | 0x1c..=0x1e => SSSE3,
                0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x36 | 0x38..=0x41 => SSE41,
                0x37 => SSE42,
                0xf0 | 0xf1 if rep == 0xf2 => SSE42,
                0xf0 | 0xf1 => MOVBE,
                0xdb..=0xdf => AES,
                0xc8..=0xcd => SHA,
                0xf6 => ADX,
                _ => SSE42,
            },
            0x3a => match *p.add(2) {
                0x0f => SSSE3,
                0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => SSE41,
                0x60..=0x63 => SSE42,
                0xdf => AES,
                0xcc => SHA,
                _ => SSE42,
            },
            0xb8 if rep == 0xf3 => POPCNT,
            0xbd if rep == 0xf3 => LZCNT,
            0xd0 | 0x7c | 0x7d if osize || rep == 0xf2 => SSE3,
            0xf0 if rep == 0xf2 => SSE3,
            0x12 if rep != 0 => SSE3,
            0x16 if rep == 0xf3 => SSE3,
            _ => 0,
        },
        _ => 0,
    }
}

#[cfg(target_arch = "x86_64")]
mod imp {
    use super::*;
    use std::arch::x86_64::__cpuid_count;

    static mut CPU: Cpu = Cpu { ecx1: 0, ebx7: 0, ecx81: 0, max_leaf: 0, vendor: 0, beyond: 0, has: 0 };
    static mut STEPS: u64 = 0;
    static mut ASKED: u64 = 0;
    static mut WRONG: (usize, u32) = (0, 0);
    static mut ON: bool = false;

    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }

    unsafe fn faulting(on: bool) -> bool {
        libc::syscall(libc::SYS_arch_prctl, 0x1012, if on { 0u64 } else { 1 }) == 0
    }

    fn real() -> (u32, u32, u32, u32) {
        unsafe {
            let max = __cpuid_count(0, 0).eax;
            let ebx7 = if max >= 7 { __cpuid_count(7, 0).ebx } else { 0 };
            let ecx81 = if __cpuid_count(0x8000_0000, 0).eax >= 0x8000_0001 { __cpuid_count(0x8000_0001, 0).ecx } else { 0 };
            (max, __cpuid_count(1, 0).ecx, ebx7, ecx81)
        }
    }

    extern "C" fn on_segv(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
        unsafe {
            let gregs = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
            let p = gregs[libc::REG_RIP as usize] as *const u8;
            if *p != 0x0f || *p.add(1) != 0xa2 {
                libc::signal(libc::SIGSEGV, libc::SIG_DFL);
                return;
            }
            ASKED += 1;
            let leaf = gregs[libc::REG_RAX as usize] as u32;
            let sub = gregs[libc::REG_RCX as usize] as u32;
            let c = std::ptr::addr_of!(CPU).read();
            faulting(false);
            let mut r = __cpuid_count(leaf, sub);
            faulting(true);
            if leaf > c.max_leaf && leaf < 0x8000_0000 {
                // Beyond the last leaf: what the last one says.
                r = std::arch::x86_64::CpuidResult { eax: c.beyond, ebx: c.beyond, ecx: c.beyond, edx: c.beyond };
            } else {
                match (leaf, sub) {
                    (0, _) => {
                        r.eax = c.max_leaf;
                        let names = [b"", b"AuthenticAMD" as &[u8], b"CentaurHauls", b"            "];
                        let n = names[c.vendor as usize];
                        if n.len() == 12 {
                            let w = |i: usize| u32::from_le_bytes([n[i], n[i + 1], n[i + 2], n[i + 3]]);
                            r.ebx = w(0);
                            r.edx = w(4);
                            r.ecx = w(8);
                        }
                    }
                    (1, _) => r.ecx = c.ecx1,
                    (7, 0) => {
                        r.ebx = c.ebx7;
                        if c.has & AVX512 == 0 {
                            r.ecx = 0;
                            r.edx = 0;
                        }
                    }
                    (7, _) if c.has & AVX2 == 0 => {
                        r.eax = 0;
                        r.ebx = 0;
                        r.ecx = 0;
                        r.edx = 0;
                    }
                    (0x8000_0001, _) => r.ecx = c.ecx81 & !(1 << 16 | 1 << 11 | 1 << 21 | 1 << 6),
                    _ => {}
                }
            }
            gregs[libc::REG_RAX as usize] = r.eax as i64;
            gregs[libc::REG_RBX as usize] = r.ebx as i64;
            gregs[libc::REG_RCX as usize] = r.ecx as i64;
            gregs[libc::REG_RDX as usize] = r.edx as i64;
            gregs[libc::REG_RIP as usize] += 2;
        }
    }

    extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
        unsafe {
            let gregs = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
            if !ON {
                gregs[libc::REG_EFL as usize] &= !0x100;
                return;
            }
            let p = gregs[libc::REG_RIP as usize] as usize;
            STEPS += 1;
            // The C library has been chosen by the real processor.
            if p < std::ptr::addr_of!(__executable_start) as usize || p >= std::ptr::addr_of!(etext) as usize {
                return;
            }
            let n = needs(p as *const u8);
            if n != 0 && CPU.has & n == 0 && WRONG.0 == 0 {
                WRONG = (p, n);
            }
        }
    }

    #[inline(never)]
    fn stepped<R>(f: impl FnOnce() -> R) -> R {
        unsafe {
            ON = true;
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
        let r = f();
        unsafe {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            ON = false;
        }
        r
    }

    /// In a process of its own: level os max-leaf vendor single work forced.
    pub fn child(a: &[u64]) -> Result<String, String> {
        let real = real();
        let cpu = describe(a, real);
        let forced = a[6];
        unsafe {
            CPU = cpu;
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_flags = libc::SA_SIGINFO;
            sa.sa_sigaction = on_segv as *const () as usize;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
            sa.sa_sigaction = on_trap as *const () as usize;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
        if forced == 0 && !unsafe { faulting(true) } {
            return Ok("unsupported".into());
        }
        if forced != 0 {
            force(forced);
        }
        // What the model needs of this process is done before it is stepped.
        // (length, mode, incremental too)
        let work: &[(usize, u64, bool)] = match a[5] {
            0 => &[(65, 0, true), (8 * 2048 + 1, 1, false)],
            1 => &[(0, 2, true), (2049, 1, true), (4 * 2048 + 64, 0, true)],
            2 => &[(9 * 2048 + 2048, 0, true), (17 * 2048 + 100, 1, false)],
            3 => &[(35 * 2048 + 1, 2, true)],
            _ => {
                let r = stepped(|| unsafe { __cpuid_count(0, 0).eax });
                return if r == cpu.max_leaf && unsafe { STEPS > 1 && ASKED == 1 } {
                    Ok("ok".to_string())
                } else {
                    Ok("unsupported".to_string())
                };
            }
        };
        for &(len, m, both) in work {
            let data = spec::fill(7, len);
            let root = spec::tree(&data, 0, &mode(m));
            let got = stepped(|| one_shot(m, &data));
            eq("digest", &got, &root.hash())?;
            if both {
                let got = stepped(|| {
                    let mut h = hasher(m);
                    h.update(&data[..len / 3]);
                    h.update(&data[len / 3..]);
                    let mut o = h.finalize_xof();
                    o.read();
                    (h.finalize(), o.read())
                });
                eq("incremental digest", got.0.as_bytes(), &root.hash())?;
                eq("second output piece", &got.1[..], &root.out(1))?;
            }
        }
        let (steps, asked, wrong) = unsafe { (STEPS, ASKED, WRONG) };
        if wrong.0 != 0 {
            let bytes = unsafe { std::slice::from_raw_parts(wrong.0 as *const u8, 8) };
            let e = EXT[wrong.1.trailing_zeros() as usize];
            return Err(format!("executed an instruction of {} ({}), which this processor does not have", e, hex(bytes)));
        }
        Ok(format!("ok {} {}", steps, asked))
    }

    pub fn usable() -> bool {
        // Without the library.
        matches!(super::run(&[9, 0, 0, 0, 0, 4, 0]), Ok(s) if s != "unsupported")
    }
}

#[cfg(not(target_arch = "x86_64"))]
mod imp {
    pub fn child(_: &[u64]) -> Result<String, String> {
        Ok("unsupported".into())
    }
    pub fn usable() -> bool {
        false
    }
}

/// Entry point of the child process.
pub fn child_main(args: &[String]) -> ! {
    let a: Vec<u64> = args.iter().map(|s| s.parse().expect("number")).collect();
    let code = match mcx::run_caught(|| imp::child(&a).map(|s| println!("{}", s))) {
        Ok(()) => 0,
        Err(e) => {
            println!("{}", e);
            1
        }
    };
    std::process::exit(code)
}

fn run(a: &[u64]) -> Result<String, String> {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--processor")
        .args(a.iter().map(|x| x.to_string()))
        .env_remove("MCX_FD")
        .output()
        .map_err(|e| format!("harness: {}", e))?;
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    match out.status.code() {
        Some(0) => Ok(text),
        Some(_) => Err(text.lines().last().unwrap_or("").to_string()),
        None => Err(format!("ended abnormally: {:?}", out.status)),
    }
}

/// cpu: level os max-leaf vendor single work forced
pub fn check(ctx: &Ctx, _: &str, a: &[u64]) -> Res {
    let name = || {
        let mut s = format!("a processor up to {}", NAMES[a[0] as usize]);
        if a[1] == 1 {
            s += ", whose operating system doesn't support AVX";
        }
        if a[2] > 0 {
            s += &format!(", with CPUID leaves up to {}", [0, 6, 1, 6][a[2] as usize]);
        }
        if a[3] > 0 {
            s += &format!(", vendor #{}", a[3]);
        }
        if a[4] > 0 {
            s += &format!(", without leaf {} bit {}", SINGLES[a[4] as usize - 1].0, SINGLES[a[4] as usize - 1].1);
        }
        if a[6] > 0 {
            s += &format!(", backend #{}", a[6]);
        }
        s
    };
    let text = run(a).map_err(|e| format!("{}: {}", name(), e))?;
    let n: Vec<u64> = text.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
    if n.len() == 2 {
        ctx.cover(1, n[0], 1);
        ctx.add("instructions_decoded", n[0]);
        ctx.add("cpuid_answers", n[1]);
    }
    Ok(())
}

pub fn enumerate(ctx: &Ctx) {
    let mut cases: Vec<Vec<u64>> = vec![];
    let usable = imp::usable();
    if usable {
        let mut processors: Vec<Vec<u64>> = vec![];
        for level in 0..LEVELS {
            for os in 0..2 {
                for leaf in 0..4 {
                    for vendor in 0..ctx.q(if leaf == 0 { 2 } else { 1 }, 4) {
                        processors.push(vec![level, os, leaf, vendor, 0]);
                    }
                }
            }
        }
        for single in 1..=SINGLES.len() as u64 {
            for os in 0..ctx.q(1, 2) {
                processors.push(vec![9, os, 0, 0, single]);
            }
        }
        for work in 0..4 {
            for p in &processors {
                // The longer ones on one processor of every level.
                if work == 0 || !ctx.quick() || p[1..] == [0, 0, 0, 0] {
                    let mut c = p.clone();
                    c.extend([work, 0]);
                    cases.push(c);
                }
            }
        }
        ctx.sample(format!(
            "{} processors: levels {} x AVX enabled by the operating system or not x last CPUID leaf x vendor; each single feature missing",
            processors.len(),
            NAMES.join(", ")
        ));
    } else {
        ctx.note("this machine cannot fault on CPUID: detection itself is not explored");
    }
    // Every backend alone keeps to its own extension.
    let mut forced = 0;
    for p in platforms().into_iter().filter(|p| *p != 0) {
        for work in 0..ctx.q(2, 4) {
            cases.push(vec![[0, 3, 7][p as usize - 1], 0, 0, 0, 0, work, p]);
            forced += 1;
        }
    }
    ctx.sample(format!("every backend chosen by the hook, {} runs, on the weakest processor it is meant for", forced));
    if cases.is_empty() {
        // Nothing but the real processor is left to run on.
        cases.push(vec![9, 0, 0, 0, 0, 0, 0]);
    }
    ctx.par(cases.len(), |i| {
        ctx.case("cpu", &cases[i]);
    });
}
