//! The instructions the C code executes do not depend on secrets.

use crate::c11::{self, libs};
use crate::clib::{self, ckernels, deltas, F};
use mcx::trace::{trace, Steps};
use mcx::{spec, Ctx, Res};
use std::cell::RefCell;

/// Everything a call touches, always at the same addresses.
struct Buffers {
    hasher: Box<[u64; 512]>,
    key: [u64; 4],
    state: [u64; 4],
    input: Vec<u8>,
    out: Vec<u8>,
    ptrs: Vec<*const u8>,
    deltas: [u64; 17],
}

const INPUT: usize = 1 << 16;
/// What is traced must be worth it: the control.
const LEAST: u64 = 50;

thread_local! {
    static BUF: RefCell<Buffers> = RefCell::new(Buffers {
        hasher: Box::new([0; 512]),
        key: [0; 4],
        state: [0; 4],
        input: vec![0; INPUT],
        out: vec![0; 4096],
        ptrs: Vec::with_capacity(64),
        deltas: deltas(2048),
    });
}

fn words(bytes: &[u8]) -> [u64; 4] {
    let mut w = [0; 4];
    for i in 0..4 {
        let mut b = [0; 8];
        b.copy_from_slice(&bytes[8 * i..8 * i + 8]);
        w[i] = u64::from_le_bytes(b);
    }
    w
}

/// Variants of key and input: 0 zeros, 1 ones, 2 mixed, 3 one bit of the key,
/// 4 one bit of the input.
fn set(b: &mut Buffers, variant: u64, slot: usize, len: usize) {
    let fill = if variant == 1 { 0xff } else { 0 };
    b.input[..len].iter_mut().for_each(|x| *x = fill);
    let mut key = [fill; 32];
    match variant {
        2 => {
            key.copy_from_slice(&spec::fill(3, 32));
            b.input[..len].copy_from_slice(&spec::fill(4, len));
        }
        3 => key[slot % 32] = 1 << (slot % 8),
        4 if len > 0 => b.input[slot % len] = 0x80 >> (slot % 8),
        _ => {}
    }
    b.key = words(&key);
    b.state = b.key;
}

#[inline(never)]
fn hash(b: &mut Buffers, lib: &clib::CLib, m: u64, len: usize) {
    let h = b.hasher.as_mut_ptr() as *mut u8;
    lib.init(h, b.key.as_ptr() as *const u8, c11::flags(m));
    let cut = len / 3;
    lib.update(h, b.input.as_ptr(), cut);
    lib.update(h, b.input[cut..].as_ptr(), len - cut);
    lib.finalize(h, b.out.as_mut_ptr());
}

fn hash_case(lib: u64, m: u64, len: usize, variant: u64, slot: usize) -> Option<Steps> {
    let lib = clib::lib(lib)?;
    BUF.with(|b| {
        let b = &mut *b.borrow_mut();
        set(b, variant, slot, len);
        Some(trace(move || hash(b, lib, m, len)).1)
    })
}

/// Number of inputs and bytes of input that a call of a kernel takes.
fn shape(k: &clib::CKernel, n: u64, blocks: u64) -> (usize, usize) {
    let block = if k.w64 { 128 } else { 64 };
    match k.f {
        F::Compress(_) => (1, block),
        F::Exact(_, n) => (n, n * block * blocks as usize),
        _ => (n as usize, n as usize * block * blocks as usize),
    }
}

#[inline(never)]
fn kernel(b: &mut Buffers, k: &clib::CKernel, blocks: usize, flags: u8) {
    let (ptrs, d) = (&b.ptrs, &b.deltas);
    let key = b.key.as_ptr() as *const u8;
    match k.f {
        F::Compress(f) => f(b.state.as_mut_ptr() as *mut u8, b.input.as_ptr(), 61, 1 << 33, flags),
        F::Many(f) => f(ptrs.as_ptr(), ptrs.len(), blocks, key, 1 << 33, d.as_ptr(), flags, 1, 2, b.out.as_mut_ptr()),
        F::Exact(f, _) => f(ptrs.as_ptr(), blocks, key, 1 << 33, d.as_ptr(), flags, 1, 2, b.out.as_mut_ptr()),
        F::There(..) => panic!("harness: not in this process"),
    }
}

fn kernel_case(a: &[u64], variant: u64, slot: usize) -> Option<Steps> {
    let k = ckernels(a[0] as usize)[a[1] as usize].as_ref()?;
    let (n, len) = shape(k, a[2], a[3]);
    BUF.with(|b| {
        let b = &mut *b.borrow_mut();
        set(b, variant, slot, len);
        let each = len / std::cmp::max(1, n);
        b.ptrs.clear();
        for i in 0..n {
            b.ptrs.push(b.input[i * each..].as_ptr());
        }
        let (blocks, flags) = (a[3] as usize, a[4] as u8);
        Some(trace(move || kernel(b, k, blocks, flags)).1)
    })
}

fn verdict(what: &str, want: Steps, got: Steps) -> Res {
    if let Some(e) = want.differs(&got) {
        return Err(format!("{} {}", what, e));
    }
    if want.count < LEAST {
        return Err("harness: nothing was traced".into());
    }
    Ok(())
}

/// hash: library mode len variant slot
/// kernel: toolchain kernel inputs blocks flags variant slot
pub fn check(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    let run = |variant, slot| match kind {
        "hash" => hash_case(a[0], a[1], a[2] as usize, variant, slot),
        "kernel" => kernel_case(a, variant, slot),
        _ => panic!("harness: unknown case"),
    };
    let (v, slot) = (a[a.len() - 2], a[a.len() - 1] as usize);
    // The first call may set something up.
    run(0, 0);
    match (run(0, 0), run(v, slot)) {
        (Some(want), Some(got)) => verdict(&name(kind, a), want, got),
        _ => Ok(()),
    }
}

fn name(kind: &str, a: &[u64]) -> String {
    if kind == "hash" {
        format!("{}: hashing {} bytes", clib::lib(a[0]).map_or("", |l| &l.name), a[2])
    } else {
        ckernels(a[0] as usize)[a[1] as usize].as_ref().map_or(String::new(), |k| k.name.clone())
    }
}

fn variants(step: usize, len: usize) -> Vec<(u64, u64)> {
    let mut vs = vec![(1, 0), (2, 0)];
    for s in (0..32).step_by(step) {
        vs.push((3, s as u64));
        vs.push((4, (s * len / 32) as u64));
    }
    vs.push((4, len.saturating_sub(1) as u64));
    vs
}

fn cases(ctx: &Ctx, kind: &str, head: &[u64], vs: &[(u64, u64)]) {
    let run = |v, s| match kind {
        "hash" => hash_case(head[0], head[1], head[2] as usize, v, s as usize),
        _ => kernel_case(head, v, s as usize),
    };
    run(0, 0);
    let want = match run(0, 0) {
        Some(w) => w,
        None => return,
    };
    let mut steps = want.count;
    for &(v, s) in vs {
        let mut args = head.to_vec();
        args.extend([v, s]);
        ctx.guard(kind, &args, || {
            let got = run(v, s).unwrap();
            steps += got.count;
            verdict(&name(kind, head), want, got)
        });
    }
    ctx.cover(vs.len() as u64 + 1, steps, vs.len() as u64 + 1);
}

pub fn enumerate(ctx: &Ctx) {
    let tools = clib::tools(ctx);
    let ls = libs(&tools, false);
    std::thread::scope(|s| {
        for &t in &tools {
            s.spawn(move || ckernels(t));
        }
    });
    ctx.info("builds", ls.iter().map(|&n| clib::lib(n).unwrap().name.clone()).collect::<Vec<_>>().join("; "));
    let mut jobs: Vec<(&str, Vec<u64>, usize)> = Vec::new();
    for &l in &ls {
        for m in 0..3 {
            for len in [0u64, 1, 63, 64, 65, 192, 2048, 2049, 4097, 6 * 2048, 19 * 2048 + 7] {
                let first = l < clib::lib_number(1, 0, false);
                if len > 4097 && m != 1 || ctx.quick() && len > 2049 && (!first || m != 1) {
                    continue;
                }
                jobs.push(("hash", vec![l, m, len], len as usize));
            }
        }
    }
    for &t in &tools {
        for (i, k) in ckernels(t).iter().enumerate() {
            let k = match k {
                Some(k) => k,
                None => continue,
            };
            let many = |n: u64, blocks: u64, flags: u64| ("kernel", vec![t as u64, i as u64, n, blocks, flags], shape(k, n, blocks).1);
            for flags in ctx.q(vec![0xff], vec![0, 0xff]) {
                match k.f {
                    F::Many(_) => {
                        for n in ctx.q(vec![1, 2, 3, 4, 8, 17], vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31]) {
                            jobs.push(many(n, 2, flags));
                        }
                        jobs.push(many(5, 16, flags));
                    }
                    F::There(..) => {}
                    _ => jobs.push(many(1, 2, flags)),
                }
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.2));
    ctx.par_procs(jobs.len(), |i| {
        let (kind, head, len) = &jobs[i];
        let step = match *len {
            0..=192 => ctx.q(8, 1),
            193..=2049 => ctx.q(16, 2),
            _ => ctx.q(32, 8),
        };
        cases(ctx, kind, head, &variants(step, *len));
    });
    ctx.sample("C hasher: lengths 0..19 chunks x secrets x 3 modes on every build; every C kernel of both word sizes x input counts x flags x secrets");
}
