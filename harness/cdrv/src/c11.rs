//! The C hasher, in every configuration: every update history within bounds
//! against the specification.

use crate::clib::{self, CLib};
use mcx::inc::{op, positions, Inc, World};
use mcx::placed::{self, Place};
use mcx::spec::{self, Cv, Memo, Mode, Node, CHUNK};
use mcx::{Ctx, Res};
use std::cell::Cell;

pub const KEYS: u64 = 4;

pub fn key(m: u64) -> [u8; 32] {
    if m == 0 {
        return spec::cv_bytes(&spec::IV);
    }
    match (m - 1) / 2 {
        0 => {
            let mut k = [0; 32];
            k.copy_from_slice(&spec::fill(777, 32));
            k
        }
        1 => [0; 32],
        2 => spec::cv_bytes(&spec::IV),
        _ => [0xff; 32],
    }
}

/// 0 default; 2k+1 keyed with key k; 2k+2 derive with key k.
pub fn mode(m: u64) -> Mode {
    if m == 0 {
        spec::mode_hash()
    } else if m % 2 == 1 {
        spec::mode_keyed(&key(m))
    } else {
        spec::mode_derive(&key(m))
    }
}

pub fn flags(m: u64) -> u8 {
    match m {
        0 => 0,
        m if m % 2 == 1 => 16,
        _ => 32,
    }
}

const WORDS: usize = 512;

/// A C hasher in a buffer of its own.
pub struct CHasher {
    lib: &'static CLib,
    mem: Box<[u64; WORDS]>,
}

impl CHasher {
    pub fn new(lib: &'static CLib, m: u64) -> CHasher {
        // Not zero: the object must not depend on what was there.
        let mut h = CHasher { lib, mem: Box::new([0xa5a5_5a5a_c3c3_3c3c; WORDS]) };
        lib.init(h.mem.as_mut_ptr() as *mut u8, key(m).as_ptr(), flags(m));
        h
    }
    pub fn p(&self) -> *const u8 {
        self.mem.as_ptr() as *const u8
    }
}

impl Inc for CHasher {
    fn update(&mut self, input: &[u8], _: u64) -> Res {
        self.lib.update(self.mem.as_mut_ptr() as *mut u8, input.as_ptr(), input.len());
        Ok(())
    }
    fn verify(&self, root: &Node) -> Res {
        let want = root.hash();
        for again in 0..2 {
            let mut out = [again; 34];
            self.lib.finalize(self.p(), out[1..].as_mut_ptr());
            if out[1..33] != want {
                return Err(format!(
                    "{}: hasher_finalize (call {}): got {} want {}",
                    self.lib.name, again + 1, spec::hex(&out[1..33]), spec::hex(&want)
                ));
            }
            if out[0] != again || out[33] != again {
                return Err(format!("{}: hasher_finalize wrote outside its output", self.lib.name));
            }
        }
        Ok(())
    }
    fn dup(&self) -> Option<Self> {
        Some(CHasher { lib: self.lib, mem: self.mem.clone() })
    }
    fn state(&self) -> Option<Vec<u8>> {
        let mut v = vec![0; 4096];
        let n = self.lib.dump(self.p(), v.as_mut_ptr())?;
        v.truncate(n);
        Some(v)
    }
}

thread_local! {
    static CURRENT: Cell<u64> = Cell::new(0);
}

/// Which library `Place` uses on this thread.
pub fn set_current(n: u64) {
    CURRENT.with(|c| c.set(n));
}

impl Place for CHasher {
    fn fresh(m: u64) -> Self {
        CHasher::new(clib::lib(CURRENT.with(|c| c.get())).expect("calibrated before"), m)
    }
    fn place(m: u64, cvs: &[Cv], chunks: u64) -> Option<Self> {
        let lib = clib::lib(CURRENT.with(|c| c.get()))?;
        if !lib.can_place() {
            return None;
        }
        // The C object has room for 53 subtrees.
        if cvs.len() > 53 {
            return None;
        }
        let mut h = CHasher::new(lib, m);
        let bytes: Vec<u8> = cvs.iter().flat_map(spec::cv_bytes).collect();
        lib.place(h.mem.as_mut_ptr() as *mut u8, bytes.as_ptr(), cvs.len(), chunks * CHUNK as u64);
        Some(h)
    }
}

/// seq: library mode op...
/// steady: library mode piece way total verify
/// placed: library mode chunks form op...     placed far into a message
/// step: library modeA lenA modeB lenB from to stride   a hash interrupted by another thread's
/// two: library modeA modeB op...   two hashers in turn: 2*size+which, or TWO_FINALIZE+which
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    let lib = match clib::lib(a[0]) {
        Some(l) => l,
        None => return Ok(()),
    };
    let m = a[1];
    if kind == "placed" {
        set_current(a[0]);
        return placed::check::<CHasher>(mode, &a[1..]);
    }
    if kind == "steady" {
        let data = spec::fill(ctx.seed, a[4] as usize + CHUNK);
        let memo = Memo::new(&data, mode(m));
        let make = move || CHasher::new(lib, m);
        return World { make: &make, data: &data, memo: &memo, finalize_between: true }.steady(a[2] as usize, a[3], a[4] as usize, a[5]);
    }
    if kind == "step" {
        return step(ctx, lib, &a[1..5], a[5], a[6], a[7]).1;
    }
    if kind == "two" {
        return two(ctx, lib, m, a[2], &a[3..]);
    }
    let total: u64 = a[2..].iter().sum();
    let data = spec::fill(ctx.seed, total as usize + CHUNK);
    let memo = Memo::new(&data, mode(m));
    let make = move || CHasher::new(lib, m);
    World { make: &make, data: &data, memo: &memo, finalize_between: true }.run(&a[2..])
}

#[inline(never)]
fn whole(lib: &CLib, m: u64, key: &[u8; 32], data: &[u8]) -> [u8; 32] {
    let mut h = [0x5a5a_a5a5u64; WORDS];
    let h = h.as_mut_ptr() as *mut u8;
    let mut out = [0; 32];
    lib.init(h, key.as_ptr(), flags(m));
    let cut = data.len() / 3;
    lib.update(h, data.as_ptr(), cut);
    lib.update(h, data[cut..].as_ptr(), data.len() - cut);
    lib.finalize(h, out.as_mut_ptr());
    out
}

/// One hash, interrupted at some of its instructions by another thread that
/// computes a whole other hash. Returns the number of instructions and of
/// interruptions as well.
fn step(ctx: &Ctx, lib: &'static CLib, a: &[u64], from: u64, to: u64, stride: u64) -> ((u64, u64), Res) {
    let (da, db) = (spec::fill(ctx.seed, a[1] as usize), spec::fill(ctx.seed + 1, a[3] as usize));
    let (ka, kb) = (key(a[0]), key(a[2]));
    let (want_a, want_b) = (spec::tree(&da, 0, &mode(a[0])).hash(), spec::tree(&db, 0, &mode(a[2])).hash());
    let (xa, xb) = (&da[..], &db[..]);
    let (ma, mb) = (a[0], a[2]);
    let r = mcx::step::run(
        &|| (),
        &move || whole(lib, ma, &ka, xa),
        &move || whole(lib, mb, &kb, xb),
        &want_b,
        from,
        to,
        stride,
    );
    if r.skipped > 0 {
        ctx.note("at some instructions the other hash was blocked until the interrupted one went on");
    }
    let verdict = match (&r.got, &r.wrong) {
        (_, Some((at, got))) => Err(format!(
            "{}: a hash of {} bytes while another thread is at instruction {} of hashing {} bytes: got {} want {}",
            lib.name, a[3], at, a[1], spec::hex(got), spec::hex(&want_b)
        )),
        (Some(got), None) if *got != want_a => Err(format!(
            "{}: a hash of {} bytes, while another thread hashes {} bytes: got {} want {}",
            lib.name, a[1], a[3], spec::hex(got), spec::hex(&want_a)
        )),
        (Some(_), None) => Ok(()),
        (None, None) => Err("the interrupted thread did not finish".into()),
    };
    ((r.instructions, r.interrupted), verdict)
}

const TWO_FINALIZE: u64 = 1 << 40;

/// Two hashers used in turn by one thread.
fn two(ctx: &Ctx, lib: &'static CLib, m0: u64, m1: u64, ops: &[u64]) -> Res {
    let total: u64 = ops.iter().filter(|&&o| o < TWO_FINALIZE).map(|o| o >> 1).sum();
    let data = [spec::fill(ctx.seed, total as usize), spec::fill(ctx.seed + 1, total as usize)];
    let mut h = [CHasher::new(lib, m0), CHasher::new(lib, m1)];
    let mut at = [0usize; 2];
    let verify = |h: &CHasher, k: usize, at: usize| {
        h.verify(&spec::tree(&data[k][..at], 0, &mode([m0, m1][k]))).map_err(|e| format!("of two hashers in turn, number {}: {}", k, e))
    };
    for &o in ops {
        let k = (o & 1) as usize;
        if o >= TWO_FINALIZE {
            verify(&h[k], k, at[k])?;
        } else {
            let n = (o >> 1) as usize;
            h[k].update(&data[k][at[k]..at[k] + n], 0)?;
            at[k] += n;
        }
    }
    for k in 0..2 {
        verify(&h[k], k, at[k])?;
    }
    Ok(())
}

/// Hashers of different threads, and of one thread in turn.
fn together(ctx: &Ctx, plain: &[u64]) {
    let main: Vec<u64> = plain.iter().copied().filter(|&n| !ctx.quick() || n < clib::lib_number(1, 0, false)).collect();
    // Two hashers in turn.
    let sizes = [1u64, 64, 2049, 17 * 2048];
    let mut alphabet: Vec<u64> = sizes.iter().flat_map(|s| [2 * s, 2 * s + 1]).collect();
    alphabet.extend([TWO_FINALIZE, TWO_FINALIZE + 1]);
    let depth = ctx.q(3, 4);
    let mut seqs: Vec<Vec<u64>> = vec![vec![]];
    let mut level = seqs.clone();
    for _ in 0..depth {
        level = level.iter().flat_map(|s| alphabet.iter().map(move |&o| [&s[..], &[o]].concat())).collect();
        seqs.extend(level.iter().cloned());
    }
    // Which of the two is first does not matter.
    seqs.retain(|s| s.first().map_or(false, |o| o & 1 == 0) && s.iter().any(|o| o & 1 == 1));
    ctx.par((main.len() * seqs.len() + 63) / 64, |i| {
        let mut n = 0;
        for j in i * 64..std::cmp::min(main.len() * seqs.len(), i * 64 + 64) {
            let (l, s) = (main[j / seqs.len()], &seqs[j % seqs.len()]);
            for (m0, m1) in [(0, 0), (1, 2)] {
                let mut a = vec![l, m0, m1];
                a.extend(s);
                ctx.case("two", &a);
                n += 1;
            }
        }
        ctx.cover(n, n * depth as u64, n);
    });
    ctx.sample(format!("two C hashers used in turn: every sequence of up to {} updates and finalizations of either", depth));
    // One thread interrupted by another. Two threads per process spin on
    // each other: half as many processes.
    // (lengths, stride, shards): one execution per shard, interrupted at every
    // stride-th instruction. A stride of 0 is one interruption per execution.
    let mut jobs: Vec<(Vec<u64>, u64, u64)> = Vec::new();
    for &l in &main {
        let mut add = |x, y, stride, shards| {
            let n = if stride == 0 { 4 } else { shards };
            jobs.extend((0..n).map(|s| (vec![l, 1, x, 2, y], stride, s)));
        };
        add(10, 65, 0, 0);
        add(65, 65, 1, 1);
        add(65, 3 * 2048 + 1, 2, ctx.q(1, 2));
        add(2 * 2048 + 65, 65, 2, ctx.q(1, 2));
        add(17 * 2048, 65, 64, ctx.q(1, 64));
        add(17 * 2048, 5 * 2048 + 3, 128, ctx.q(1, 16));
        if !ctx.quick() {
            add(129, 2049, 0, 0);
            add(3 * 2048 + 1, 2 * 2048 + 1, 4, 4);
        }
    }
    ctx.par_procs_of(4, jobs.len(), |i| {
        let (head, stride, shard) = &jobs[i];
        let lib = clib::lib(head[0]).unwrap();
        let mut seen = (0, 0);
        let mut one = |from: u64, to: u64, stride: u64| {
            let mut args = head.clone();
            args.extend([from, to, stride]);
            let mut len = 0;
            ctx.guard("step", &args, || {
                let ((n, k), r) = step(ctx, lib, &head[1..], from, to, stride);
                len = n;
                seen.0 += k;
                seen.1 += 1;
                r
            });
            len
        };
        if *stride == 0 {
            let mut at = *shard;
            while !ctx.stopped() && one(at, at + 1, 1) > at {
                at += 4;
            }
        } else {
            one(*shard, u64::MAX, *stride);
        }
        ctx.cover(seen.0, seen.0, seen.1);
        ctx.add("instruction_interruptions", seen.0);
    });
    ctx.sample("one C hash interrupted at its instructions (all of them for short ones) by another thread's whole hash, on every build");
}

const SIZES: [usize; 14] = [0, 1, 63, 64, 65, 1984, 2047, 2048, 2049, 4096, 6144, 16 * 2048, 16 * 2048 + 1, 17 * 2048 + 64];

/// Builds the libraries in parallel; returns their numbers.
pub fn libs(tools: &[usize], probed: bool) -> Vec<u64> {
    let mut v = Vec::new();
    for &t in tools {
        for c in clib::configs() {
            v.push(clib::lib_number(t, c, probed));
        }
    }
    load(v)
}

/// As above, of a 32-bit toolchain.
pub fn libs32(tool: usize, probed: bool) -> Vec<u64> {
    load(clib::configs32().into_iter().map(|c| clib::lib_number(tool, c, probed)).collect())
}

fn load(mut v: Vec<u64>) -> Vec<u64> {
    std::thread::scope(|s| {
        for &n in &v {
            s.spawn(move || clib::lib(n));
        }
    });
    v.retain(|&n| clib::lib(n).is_some());
    v
}

/// The C code as 32-bit programs.
fn enumerate32(ctx: &Ctx) {
    for t in clib::tools32(ctx) {
        let plain = libs32(t, false);
        let probed = libs32(t, true);
        ctx.info(clib::TOOLS[t].name, plain.iter().map(|&n| clib::lib(n).unwrap().name.clone()).collect::<Vec<_>>().join("; "));
        let depth = ctx.q(1, 2);
        let data = spec::fill(ctx.seed, 97 * CHUNK);
        let memos: Vec<Memo> = (0..2 * KEYS + 1).map(|m| Memo::new(&data, mode(m))).collect();
        let alphabet: Vec<u64> = SIZES.iter().map(|&s| op(s, 0)).collect();
        let mut jobs = Vec::new();
        for &n in &plain {
            for m in 0..2 * KEYS + 1 {
                for &first in &alphabet {
                    jobs.push((n, m, if m < 3 { depth } else { 0 }, first));
                }
            }
        }
        ctx.par(jobs.len(), |i| {
            let (n, m, d, first) = jobs[i];
            let lib = clib::lib(n).unwrap();
            let make = move || CHasher::new(lib, m);
            let w = World { make: &make, data: &data, memo: &memos[m as usize], finalize_between: true };
            let (s, t) = w.dfs(ctx, "seq", &[n, m], &mut vec![first], &alphabet, d);
            ctx.cover(s, t, s);
        });
        let most = ctx.q(2 << 20, 96 << 20);
        let long = spec::fill(ctx.seed, most + 4 * CHUNK);
        let m0 = Memo::new(&long, mode(0));
        let mut jobs: Vec<(u64, u64, Vec<usize>)> = Vec::new();
        for &n in &probed {
            jobs.push((n, 0, (0..=ctx.q(300, 2200)).collect()));
            for m in 0..3 {
                jobs.push((n, m, positions(ctx.q(3, 16) * CHUNK + 64, 64, &[0, 63])));
                jobs.push((n, m, positions(ctx.q(35, 96) * CHUNK + 1, 2048, &[0, 1])));
            }
        }
        ctx.par(plain.len() + jobs.len(), |i| {
            if i < plain.len() {
                let n = plain[i];
                let lib = clib::lib(n).unwrap();
                let make = move || CHasher::new(lib, 0);
                World { make: &make, data: &long, memo: &m0, finalize_between: true }.wide_all(ctx, &[n, 0], most);
                return;
            }
            let (n, m, pos) = &jobs[i - plain.len()];
            let (n, m) = (*n, *m);
            let lib = clib::lib(n).unwrap();
            let make = move || CHasher::new(lib, m);
            let w = World { make: &make, data: &data, memo: &memos[m as usize], finalize_between: true };
            if let Some((s, t)) = w.bfs(ctx, "seq", &[n, m], pos, 1) {
                ctx.cover(s, t, s);
            }
        });
        if let Some(&n) = probed.first() {
            set_current(n);
            // C07 has the others.
            let prefixes: Vec<Vec<u64>> = probed[..ctx.q(1, probed.len())].iter().map(|&p| vec![p]).collect();
            placed::enumerate::<CHasher>(ctx, "placed", &prefixes, 1, 0, |a| check(ctx, "placed", a));
        }
        ctx.sample(format!("{}: sequences of length <= {}, single updates up to {} bytes, all partitions with cuts at every byte up to 300 and around blocks and chunks beyond", clib::TOOLS[t].name, depth + 1, most));
    }
}

pub fn enumerate(ctx: &Ctx) {
    let tools = clib::tools(ctx);
    let plain = libs(&tools, false);
    let probed = libs(&tools[..1], true);
    let names: Vec<String> = plain.iter().map(|&n| clib::lib(n).unwrap().name.clone()).collect();
    ctx.info("builds", names.join("; "));
    ctx.note("the NEON build runs on an emulation of the intrinsics it uses (harness/cdrv/neon/arm_neon.h)");

    // All sequences over an alphabet of sizes.
    let depth = ctx.q(3, 4);
    let data = spec::fill(ctx.seed, SIZES[13] * (depth + 1) + CHUNK);
    let memos: Vec<Memo> = (0..2 * KEYS + 1).map(|m| Memo::new(&data, mode(m))).collect();
    let alphabet: Vec<u64> = SIZES.iter().map(|&s| op(s, 0)).collect();
    let mut jobs = Vec::new();
    for &n in &plain {
        let main_tool = n < clib::lib_number(1, 0, false);
        for m in 0..2 * KEYS + 1 {
            if m > 2 && !main_tool {
                continue;
            }
            let d = match (m, main_tool) {
                (0, true) => depth,
                (0, false) | (1, true) | (2, true) => depth - 1,
                _ => 1,
            };
            for &first in &alphabet {
                jobs.push((n, m, d, first));
            }
        }
    }
    ctx.par(jobs.len(), |i| {
        let (n, m, d, first) = jobs[i];
        let lib = clib::lib(n).unwrap();
        let make = move || CHasher::new(lib, m);
        let w = World { make: &make, data: &data, memo: &memos[m as usize], finalize_between: true };
        let (s, t) = w.dfs(ctx, "seq", &[n, m], &mut vec![first], &alphabet, d);
        ctx.cover(s, t, s);
    });
    ctx.sample(format!("all update sequences of length <= {} over sizes {:?} on {} builds", depth + 1, SIZES, plain.len()));

    // Every length whole.
    let data = spec::fill(ctx.seed, 301 * CHUNK);
    let memos: Vec<Memo> = (0..2 * KEYS + 1).map(|m| Memo::new(&data, mode(m))).collect();
    let max = ctx.q(3 * CHUNK + 2, 20 * CHUNK);
    let mut lens: Vec<usize> = (0..=max).collect();
    for c in max / CHUNK..300 {
        for d in [0, 1, 64, 2047] {
            lens.push(c * CHUNK + d);
        }
    }
    ctx.par((lens.len() + 31) / 32, |i| {
        let mut k = 0;
        for &l in &lens[i * 32..std::cmp::min(lens.len(), i * 32 + 32)] {
            for &n in &plain {
                let m = (l as u64 + n) % (2 * KEYS + 1);
                let lib = clib::lib(n).unwrap();
                ctx.guard("seq", &[n, m, l as u64], || {
                    let mut h = CHasher::new(lib, m);
                    h.update(&data[..l], 0)?;
                    h.verify(&memos[m as usize].root(l))
                });
                k += 1;
            }
        }
        ctx.cover(k, 3 * k, k);
    });
    ctx.sample(format!("every length up to {} and around every chunk up to 300, in one update, cycling through 9 modes and keys, on every build", max));

    // Many equal updates.
    let total = ctx.q(600_000, 4_000_000);
    let long = spec::fill(ctx.seed, total + CHUNK);
    let m0 = Memo::new(&long, mode(0));
    ctx.par(plain.len(), |i| {
        let n = plain[i];
        let lib = clib::lib(n).unwrap();
        let make = move || CHasher::new(lib, 0);
        World { make: &make, data: &long, memo: &m0, finalize_between: true }.steady_all(ctx, &[n, 0], total);
    });
    // Single wide updates.
    let most = ctx.q(16 << 20, 96 << 20);
    let long = spec::fill(ctx.seed, most + 4 * CHUNK);
    let m0 = Memo::new(&long, mode(0));
    ctx.par(plain.len(), |i| {
        let n = plain[i];
        let lib = clib::lib(n).unwrap();
        let make = move || CHasher::new(lib, 0);
        World { make: &make, data: &long, memo: &m0, finalize_between: true }.wide_all(ctx, &[n, 0], most);
    });
    ctx.sample(format!("single updates of 2^k and 3*2^k chunks and their neighbours up to {} bytes, first and after 1 or 2048 bytes, on every build", most));
    ctx.sample("up to 70000 updates of the same size (empty to 65537 bytes), finalized along the way or only at the end");

    together(ctx, &plain);
    enumerate32(ctx);

    // Far into a message.
    if let Some(&n) = probed.first() {
        set_current(n);
        let prefixes: Vec<Vec<u64>> = probed.iter().map(|&p| vec![p]).collect();
        placed::enumerate::<CHasher>(ctx, "placed", &prefixes, 3, 0, |a| check(ctx, "placed", a));
    }

    // Every partition, by breadth-first search over exact states.
    if probed.is_empty() {
        ctx.note("exact states unavailable (the probe does not compile on this tree): only the sequence enumeration ran");
        return;
    }
    let mut jobs: Vec<(u64, u64, Vec<usize>)> = Vec::new();
    let dense = ctx.q(2200, 4200);
    for &n in &probed {
        jobs.push((n, 0, (0..=dense).collect()));
        for m in 0..3 {
            let l = ctx.q(4, 16) * CHUNK + 64;
            jobs.push((n, m, positions(l, 64, &[0, 1, 63])));
            let l = ctx.q(70, 200) * CHUNK + 1;
            jobs.push((n, m, positions(l, 2048, &[0, 1, 2047])));
        }
    }
    ctx.par(jobs.len(), |i| {
        let (n, m, pos) = &jobs[i];
        let (n, m) = (*n, *m);
        let lib = clib::lib(n).unwrap();
        let make = move || CHasher::new(lib, m);
        let w = World { make: &make, data: &data, memo: &memos[m as usize], finalize_between: true };
        if let Some((s, t)) = w.bfs(ctx, "seq", &[n, m], pos, 1) {
            ctx.cover(s, t, s);
        }
    });
    ctx.sample(format!("all partitions (fixpoint of exact states) with cuts at every byte up to {}, at 0, 1, 63 mod 64 and at 0, 1, 2047 mod 2048 beyond, on {} builds", dense, probed.len()));
}
