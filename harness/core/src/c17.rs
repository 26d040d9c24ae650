//! The reference implementation against the specification.

use crate::common::*;
use mcx::inc::{op, positions, Inc, World};
use mcx::longmem::Long;
use mcx::longrun::{incremental, long, memo, stops};
use mcx::placed;
use mcx::{spec, spec::Node, Ctx, Res};
use reference_impl::Hasher;

pub struct Ref(pub Hasher);

pub fn make(m: u64) -> Ref {
    Ref(match m {
        0 => Hasher::new(),
        m if m % 2 == 1 => Hasher::new_keyed(&key((m - 1) / 2)),
        m => Hasher::new_derive_key(&key((m - 2) / 2)),
    })
}

impl Inc for Ref {
    fn update(&mut self, input: &[u8], _: u64) -> Res {
        self.0.update(input);
        Ok(())
    }
    fn verify(&self, root: &Node) -> Res {
        let want = root.out(0);
        let mut out = [0; 64];
        self.0.finalize(&mut out);
        eq("finalize of 64 bytes", &out, &want)?;
        let mut out = [0xff; 32];
        self.0.finalize(&mut out);
        eq("finalize of 32 bytes", &out, &want[..32])
    }
    #[cfg(baokeshed_verif_state)]
    fn dup(&self) -> Option<Self> {
        Some(Ref(self.0.clone()))
    }
    #[cfg(not(baokeshed_verif_state))]
    fn dup(&self) -> Option<Self> {
        None
    }
    #[cfg(baokeshed_verif_state)]
    fn state(&self) -> Option<Vec<u8>> {
        Some(self.0.verif_state())
    }
    #[cfg(not(baokeshed_verif_state))]
    fn state(&self) -> Option<Vec<u8>> {
        None
    }
}

/// seq: mode op...
/// steady: mode piece way total verify
/// tail: mode len outlen            the end of an output too long to keep
/// out: mode len outlen fill
/// bigout: mode len outlen every
/// placed: mode chunks form op...    a hasher placed far into a message
/// long: mode plan                   real input past 4 GiB
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    let m = a[0];
    match kind {
        "seq" => {
            let ops = &a[1..];
            let total: u64 = ops.iter().map(|o| o & ((1 << 48) - 1)).sum();
            let data = content(ctx.seed, 0, total as usize + CHUNK);
            let memo = memo_for(&data, m);
            let mk = move || make(m);
            World { make: &mk, data: &data, memo: &memo, finalize_between: true }.run(ops)
        }
        "out" => {
            let data = content(ctx.seed, a[3], a[1] as usize);
            let root = spec::tree(&data, 0, &mode(m));
            let mut h = make(m).0;
            h.update(&data);
            out_case(&h, &root, a[2] as usize)
        }
        "steady" => {
            let data = content(ctx.seed, 0, a[3] as usize + CHUNK);
            let memo = memo_for(&data, m);
            let mk = move || make(m);
            World { make: &mk, data: &data, memo: &memo, finalize_between: true }.steady(a[1] as usize, a[2], a[3] as usize, a[4])
        }
        "tail" => tail_case(ctx, m, a[1], a[2]),
        "placed" => placed::check::<Ref>(mode, a),
        "long" => {
            let w = long(ctx);
            let m0 = memo(w, mode(m), w.max, ctx.threads);
            incremental(&mut make(m), w, &m0, a[1])
        }
        "bigout" => {
            let data = content(ctx.seed, 0, a[1] as usize);
            let root = spec::tree(&data, 0, &mode(m));
            let mut h = make(m).0;
            h.update(&data);
            let mut out = vec![0u8; a[2] as usize];
            h.finalize(&mut out);
            for (i, b) in out.chunks(64).enumerate() {
                let i = i as u64;
                if i % a[3] == 0 || (i * 64) as u32 <= 4096 || (i * 64 + 4096) as u32 <= 4096 {
                    eq(&format!("output block {}", i), b, &root.out(i)[..b.len()])?;
                }
            }
            Ok(())
        }
        _ => panic!("harness: unknown case"),
    }
}

/// The output buffer is a short stretch of memory, mapped over and over: what
/// is left there in the end is the last part of the output.
fn tail_case(ctx: &Ctx, m: u64, len: u64, out_len: u64) -> Res {
    const KEEP: u64 = 2 << 20;
    let data = content(ctx.seed, 0, len as usize);
    let root = spec::tree(&data, 0, &mode(m));
    let mut h = make(m).0;
    h.update(&data);
    let mem = Long::new(&vec![0; KEEP as usize], (out_len / KEEP) as usize + 1);
    let out = unsafe { mem.writable(out_len as usize) };
    h.finalize(out);
    let from = (out_len - KEEP) / 64 * 64 + 64;
    for i in from / 64..(out_len + 63) / 64 {
        let b = &out[(i * 64) as usize..std::cmp::min(out_len, i * 64 + 64) as usize];
        eq(&format!("output block {} of {} bytes", i, out_len), b, &root.out(i)[..b.len()])?;
    }
    Ok(())
}

fn out_case(h: &Hasher, root: &Node, n: usize) -> Res {
    let want = root.out_bytes(n);
    for fill in [0u8, 0xff] {
        let mut out = vec![fill; n];
        h.finalize(&mut out);
        eq(&format!("finalize of {} bytes", n), &out, &want)?;
    }
    Ok(())
}

pub fn enumerate(ctx: &Ctx) {
    // Sequences over an alphabet of sizes.
    let sizes = crate::c02::SIZES;
    let depth = ctx.q(3, 5);
    let data = content(ctx.seed, 0, sizes[12] * (depth + 1) + CHUNK);
    let memos: Vec<_> = (0..5).map(|m| memo_for(&data, m)).collect();
    let alphabet: Vec<u64> = sizes.iter().map(|&s| op(s, 0)).collect();
    let mut jobs = Vec::new();
    for m in 0..5u64 {
        for &first in &alphabet {
            jobs.push((m, if m < 3 { depth } else { depth - 1 }, first));
        }
    }
    ctx.par(jobs.len(), |i| {
        let (m, d, first) = jobs[i];
        let mk = move || make(m);
        let w = World { make: &mk, data: &data, memo: &memos[m as usize], finalize_between: true };
        let (s, t) = w.dfs(ctx, "seq", &[m], &mut vec![first], &alphabet, d);
        ctx.cover(s, t, s);
    });
    ctx.sample(format!("all update sequences of length <= {} over sizes {:?}", depth + 1, sizes));

    // Every partition, by breadth-first search over exact states.
    let data = content(ctx.seed, 0, 301 * CHUNK);
    let memos: Vec<_> = (0..3).map(|m| memo_for(&data, m)).collect();
    let mut jobs: Vec<(u64, Vec<usize>, String)> = Vec::new();
    let dense = ctx.q(2200, 4200);
    jobs.push((0, (0..=dense).collect(), format!("every byte position up to {}", dense)));
    for m in 0..3 {
        let l = ctx.q(4, 16) * CHUNK + 64;
        jobs.push((m, positions(l, 64, &[0, 1, 63]), format!("positions 0, 1, 63 mod 64 up to {}", l)));
        let l = ctx.q(40, 200) * CHUNK + 1;
        jobs.push((m, positions(l, 2048, &[0, 1, 2047]), format!("positions 0, 1, 2047 mod 2048 up to {}", l)));
    }
    ctx.par(jobs.len(), |i| {
        let (m, pos, what) = &jobs[i];
        let m = *m;
        let mk = move || make(m);
        let w = World { make: &mk, data: &data, memo: &memos[m as usize], finalize_between: true };
        match w.bfs(ctx, "seq", &[m], pos, 1) {
            Some((s, t)) => ctx.cover(s, t, s),
            None => ctx.note("exact states unavailable (hook does not compile on this tree): only the sequence enumeration ran"),
        }
        ctx.sample(format!("all partitions with cuts at {} (fixpoint)", what));
    });

    // Every length, whole, in every mode.
    let max = ctx.q(9, 40) * CHUNK + 70;
    ctx.par((max + 64) / 64, |i| {
        let mut n = 0;
        for l in i * 64..std::cmp::min(max, i * 64 + 64) {
            let m = (l % 3) as u64;
            for m in [m, (m + 1) % 3] {
                ctx.guard("seq", &[m, l as u64], || {
                    let mut h = make(m);
                    h.update(&data[..l], 0)?;
                    h.verify(&memos[m as usize].root(l))
                });
                n += 1;
            }
        }
        ctx.cover(n, 2 * n, n);
    });

    // Every output length.
    let mut jobs = Vec::new();
    for m in 0..2 * KEYS as u64 + 1 {
        for l in [0u64, 1, 64, 65, 2048, 2049, 4096, 10241] {
            jobs.push((m, l));
        }
    }
    let outs = ctx.q(520, 4200);
    ctx.par(jobs.len(), |i| {
        let (m, l) = jobs[i];
        let d = content(ctx.seed, 0, l as usize);
        let root = spec::tree(&d, 0, &mode(m));
        let mut h = make(m).0;
        h.update(&d);
        for n in 0..=outs {
            ctx.guard("out", &[m, l, n, 0], || out_case(&h, &root, n as usize));
        }
        for c in 1..4 {
            ctx.case("out", &[m, l, 100, c]);
        }
        ctx.cover(outs + 4, 2 * outs + 8, outs + 4);
    });
    ctx.sample(format!("every output length 0..={} for 8 message lengths x 9 modes", outs));
    // Far into a message.
    placed::enumerate::<Ref>(ctx, "placed", &[vec![]], 3, 1, |a| check(ctx, "placed", a));
    if ctx.stopped() {
        return;
    }
    let w = long(ctx);
    let m0 = memo(w, mode(0), w.max, ctx.threads);
    let data = content(ctx.seed, 0, 700_000);
    let steady: Vec<_> = (0..3).map(|m| memo_for(&data, m)).collect();
    let most = ctx.q(16 << 20, 64 << 20);
    let wide = content(ctx.seed, 0, most + 4 * CHUNK);
    let wide_memo = memo_for(&wide, 0);
    let plans = ctx.q(vec![1, 3], vec![0, 1, 2, 3, 3 + 2048]);
    let outs = ctx.q(vec![(1u64 << 32) + 1000], vec![(1 << 32) + 1000, (1 << 33) + 7, (1 << 32) - 1]);
    ctx.par(plans.len() + outs.len() + 4, |i| {
        if i == plans.len() + outs.len() + 3 {
            World { make: &|| make(0), data: &wide, memo: &wide_memo, finalize_between: true }.wide_all(ctx, &[0], most);
            return;
        }
        if i >= plans.len() + outs.len() {
            let m = (i - plans.len() - outs.len()) as u64;
            let mk = move || make(m);
            World { make: &mk, data: &data, memo: &steady[m as usize], finalize_between: true }.steady_all(ctx, &[m], 600_000);
            return;
        }
        if i >= plans.len() {
            let n = outs[i - plans.len()];
            ctx.case("tail", &[(i % 3) as u64, 70, n]);
            ctx.cover(1, n / 64, 1);
            return;
        }
        let a = [0, plans[i]];
        ctx.guard("long", &a, || incremental(&mut make(0), w, &m0, a[1]));
        ctx.cover(stops(w.max).len() as u64, w.max / CHUNK as u64, 1);
    });
    ctx.sample(format!("real input of {} bytes, finalized at {:?}", w.max, stops(w.max)));

    let big = ctx.q(1u64 << 20, (1 << 32) + 3 * 64 + 5);
    ctx.case("bigout", &[0, 5000, big, ctx.q(1, 64)]);
    ctx.cover(1, big / 64, 1);
}
