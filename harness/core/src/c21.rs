//! Work in proportion to the input, memory that does not grow with it.
//!
//! Work is counted in executed instructions (trap flag), heap by the allocator
//! below, stack by painting it.

use crate::common::*;
use mcx::cost::{self, count, within};
use mcx::longrun::long;
use mcx::{Ctx, Res};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

// ------------------------------------------------------------------- heap

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn account(n: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(std::cmp::max(p.get(), l.get())));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        if let Some(p) = mcx::trace::arena_alloc(l) {
            return p;
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        if let Some(p) = mcx::trace::arena_alloc(l) {
            std::ptr::write_bytes(p, 0, l.size());
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        if !mcx::trace::arena_owns(p) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        let to = Layout::from_size_align_unchecked(n, l.align());
        match mcx::trace::arena_alloc(to) {
            None if !mcx::trace::arena_owns(p) => System.realloc(p, l, n),
            new => {
                let q = new.unwrap_or_else(|| System.alloc(to));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, std::cmp::min(n, l.size()));
                    if !mcx::trace::arena_owns(p) {
                        System.dealloc(p, l);
                    }
                }
                q
            }
        }
    }
}

enum Any {
    Rust(baokeshed::Hasher),
    Ref(reference_impl::Hasher),
}

impl Any {
    fn new(p: u64, m: u64) -> Any {
        if p == REFERENCE {
            Any::Ref(crate::c17::make(m).0)
        } else {
            Any::Rust(hasher(m))
        }
    }
    fn update(&mut self, d: &[u8]) {
        match self {
            Any::Rust(h) => drop(h.update(d)),
            Any::Ref(h) => h.update(d),
        }
    }
    fn finalize(&self) {
        match self {
            Any::Rust(h) => drop(std::hint::black_box(h.finalize())),
            Any::Ref(h) => {
                let mut out = [0; 32];
                h.finalize(&mut out);
                std::hint::black_box(out);
            }
        }
    }
}

/// In place of a backend.
const REFERENCE: u64 = 100;

fn data(n: usize) -> &'static [u8] {
    static D: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    &D.get_or_init(|| mcx::spec::fill(5, (4 << 20) + 70_000))[..n]
}

/// one: backend mode len            one-shot
/// step: backend before piece op    one operation behind `before` bytes given
///                                  in pieces; op: length of an update, or
///                                  FINALIZE, XOF, CLONE
/// many: backend piece count        equal updates
/// read: backend len skip           one more output block
/// room: backend way len            heap and stack
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    let p = a[0];
    if p != REFERENCE {
        force(p);
    }
    match kind {
        "one" => {
            let d = data(a[2] as usize);
            let (_, n) = count(|| one_shot(a[1], d));
            ctx.add("instructions_counted", n);
            show("one", a, n);
            within(&format!("hashing {} bytes at once", a[2]), n, 1, a[2], a[2])
        }
        "step" => {
            let mut h = Any::new(p, 0);
            for c in data(a[1] as usize).chunks(std::cmp::max(1, a[2] as usize)) {
                h.update(c);
            }
            let (name, bytes, (_, n)) = match a[3] {
                FINALIZE => ("finalize", 0, count(|| h.finalize())),
                XOF => match &h {
                    Any::Rust(h) => ("finalize_xof", 0, count(|| drop(std::hint::black_box(h.finalize_xof())))),
                    _ => return Ok(()),
                },
                CLONE => match &h {
                    Any::Rust(h) => ("clone", 0, count(|| drop(std::hint::black_box(h.clone())))),
                    _ => return Ok(()),
                },
                len => ("update", len, {
                    let d = data(len as usize);
                    count(|| h.update(d))
                }),
            };
            ctx.add("instructions_counted", n);
            show("step", a, n);
            within(
                &format!("{} ({} bytes) behind {} bytes given in pieces of {}", name, bytes, a[1], a[2]),
                n,
                1,
                bytes,
                a[1] + bytes,
            )
        }
        "many" => {
            let mut h = Any::new(p, 0);
            let d = data(a[1] as usize);
            let (_, n) = count(|| {
                for _ in 0..a[2] {
                    h.update(d);
                }
            });
            ctx.add("instructions_counted", n);
            show("many", a, n);
            // A call may have a price of its own, but not that of a chunk.
            within(&format!("{} updates of {} bytes", a[2], a[1]), n, a[2], a[1] * a[2], a[1] * a[2])
        }
        "read" => {
            let mut o = one_shot_xof(0, data(a[1] as usize));
            for _ in 0..a[2] {
                o.read();
            }
            let (_, n) = count(|| o.read());
            ctx.add("instructions_counted", n);
            show("read", a, n);
            within("reading 64 bytes of output", n, 1, 0, 0)
        }
        "room" => room(ctx, a),
        _ => Err("harness: unknown case".into()),
    }
}

fn show(kind: &str, a: &[u64], n: u64) {
    if std::env::var_os("MCX_VERBOSE").is_some() {
        eprintln!("{} {:?}: {}", kind, a, n);
    }
}

// ------------------------------------------------------------------- room

fn work(p: u64, way: u64, input: &[u8]) {
    match way {
        0 => drop(std::hint::black_box(one_shot(1, input))),
        1 | 2 => {
            let mut h = Any::new(p, 0);
            // All at once, or in pieces of which the number grows.
            let piece = if way == 1 { usize::MAX } else { std::cmp::max(1, std::cmp::min(65537, input.len() / 5000)) };
            for c in input.chunks(piece) {
                h.update(c);
            }
            h.finalize();
        }
        3 => {
            let mut h = Any::new(p, 0);
            for r in cost::pieces(input.len()) {
                h.update(&input[r]);
            }
            h.finalize();
        }
        4 => {
            // Many hashers.
            for r in cost::pieces(input.len() / 4) {
                let mut h = Any::new(p, 0);
                h.update(&input[r.clone()]);
                h.finalize();
                if let Any::Rust(h) = &h {
                    let mut c = h.clone();
                    c.update(&input[..r.len() / 2]);
                    drop(std::hint::black_box(one_shot(1, &input[r])));
                }
            }
        }
        5 => {
            let mut o = one_shot_xof(0, &input[..std::cmp::min(input.len(), 5000)]);
            for _ in 0..std::cmp::min(input.len() / 64, 1 << 20) {
                std::hint::black_box(o.read());
            }
        }
        _ => {
            let mut h = hasher(0);
            let mut from = input;
            let n = baokeshed::copy::copy_wide(&mut from, &mut h).expect("copy");
            assert_eq!(n, input.len() as u64);
            drop(std::hint::black_box(h.finalize()));
        }
    }
}

fn room(ctx: &Ctx, a: &[u64]) -> Res {
    let (p, way, len) = (a[0], a[1], a[2]);
    let input = &long(ctx).mem.bytes()[..len as usize];
    let (stack, before, after, peak) = cost::on_own_stack(|| {
        if p != REFERENCE {
            force(p);
        }
        // What is kept for good is kept now.
        work(p, way, &input[..std::cmp::min(input.len(), 70_000)]);
        let before = LIVE.with(|l| l.get());
        PEAK.with(|p| p.set(before));
        let stack = cost::lowest_touched(&mut || work(p, way, input));
        (stack as u64, before, LIVE.with(|l| l.get()), PEAK.with(|p| p.get()))
    })?;
    show("room", a, stack);
    show("heap", a, (peak - before) as u64);
    let allowed = cost::room(len);
    let what = ["hashing at once", "one update", "updates", "updates of all shapes", "hashers", "reading output", "copying"][way as usize];
    if stack > allowed {
        return Err(format!("{} of {} bytes: {} bytes of stack; {} are allowed", what, len, stack, allowed));
    }
    if after > before {
        return Err(format!("{} of {} bytes: {} bytes of heap are never given back", what, len, after - before));
    }
    if peak - before > allowed as i64 {
        return Err(format!("{} of {} bytes: {} bytes of heap; {} are allowed", what, len, peak - before, allowed));
    }
    Ok(())
}

const FINALIZE: u64 = 1 << 40;
const XOF: u64 = 1 << 41;
const CLONE: u64 = 1 << 42;

pub fn enumerate(ctx: &Ctx) {
    let plats = platforms();
    let mut cases: Vec<(&str, Vec<u64>)> = vec![];
    for &p in plats.iter().chain(&[REFERENCE]) {
        let fast = p == 3 || p == 2;
        let most = ctx.q(if fast { 1 << 16 } else { 1 << 14 }, 1 << 20);
        for m in 0..3 {
            let mut len = 1;
            while p != REFERENCE && len <= most {
                for l in [len, len + 1, len / 2 * 3] {
                    if (m == 0 || l % 2048 == 1) && l <= most {
                        cases.push(("one", vec![p, m, l]));
                    }
                }
                len *= 2;
            }
        }
        for before in [0u64, 1, 2047, 2048, 2049, 6144, 6145, 7 * 2048, 8 * 2048, 63 * 2048 + 5, 1 << 20, (1 << 20) + 1, (1 << 21) - 1, (3 << 20) + 2048] {
            for piece in [1u64, 1000, 2048, 1 << 30] {
                if ctx.quick() && (piece == 1 && before > 1 << 20 || piece == 2048 && before % 2048 == 0) {
                    continue;
                }
                for op in [0, 1, 64, 2049, FINALIZE, XOF, CLONE] {
                    cases.push(("step", vec![p, before, piece, op]));
                }
                if piece == 1000 {
                    cases.push(("step", vec![p, before, piece, ctx.q(4, 64) * 2048]));
                }
            }
        }
        for (piece, n) in [(0, 500), (1, 2100), (3, 800), (64, 100), (65, 100), (2047, 6), (2048, 6), (2049, 6)] {
            cases.push(("many", vec![p, piece, n * ctx.q(1, 32)]));
        }
        for len in [0, 100, 2049, 100_000] {
            for skip in [0, 1, 1000, 100_000] {
                if p != REFERENCE {
                    cases.push(("read", vec![p, len, skip]));
                }
            }
        }
        let lens = ctx.q(
            vec![0u64, 1, 2049, 50_000, 1 << 20, (1 << 24) + 1, (1 << 27) - 1],
            vec![0u64, 1, 2049, 50_000, 1 << 20, (1 << 24) + 1, (1 << 27) - 1, (1 << 30) + 5, (1 << 32) + 2049],
        );
        for len in lens {
            for way in if p == REFERENCE { 1..5 } else { 0..7 } {
                cases.push(("room", vec![p, way, len]));
            }
        }
    }
    // Long ones first.
    cases.sort_by_key(|c| std::cmp::Reverse(if c.0 == "room" { c.1[2] / 64 } else { c.1[1..].iter().filter(|x| **x < FINALIZE).sum() }));
    ctx.par(cases.len(), |i| {
        let (kind, a) = &cases[i];
        ctx.case(kind, a);
        ctx.cover(1, 1, 1);
    });
    ctx.sample(format!("{} cases: one-shot lengths to 64 KiB, each operation behind up to 3 MiB given in four ways, equal updates, output blocks (instructions counted); seven ways of hashing to 128 MiB (heap and stack measured); every backend and the reference implementation", cases.len()));
    ctx.info("limits", cost::limits());
}
