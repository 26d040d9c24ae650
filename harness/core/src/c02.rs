//! Incremental hashing: every partition within bounds gives the one-shot
//! digest of the concatenation, at every prefix.

use crate::common::*;
use mcx::inc::{op, positions, World};
use mcx::longrun::{incremental, long, memo, stops};
use mcx::{Ctx, Res};

/// seq: backend mode op...
/// steady: backend mode piece way total verify
/// long: backend mode plan          past 4 GiB
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    force(a[0]);
    if kind == "long" {
        let w = long(ctx);
        return incremental(&mut RustHasher(hasher(a[1])), w, &memo(w, mode(a[1]), w.max, ctx.threads), a[2]);
    }
    if kind == "steady" {
        let data = content(ctx.seed, 0, a[4] as usize + CHUNK);
        let memo = memo_for(&data, a[1]);
        let m = a[1];
        let make = move || RustHasher(hasher(m));
        return World { make: &make, data: &data, memo: &memo, finalize_between: false }.steady(a[2] as usize, a[3], a[4] as usize, a[5]);
    }
    let ops = &a[2..];
    let total: u64 = ops.iter().map(|o| o & ((1 << 48) - 1)).sum();
    let data = content(ctx.seed, 0, total as usize + CHUNK);
    let memo = memo_for(&data, a[1]);
    let m = a[1];
    let make = move || RustHasher(hasher(m));
    World { make: &make, data: &data, memo: &memo, finalize_between: false }.run(ops)?;
    // And the one-shot function on the concatenation.
    check_one_shot(m, &data[..total as usize], &memo.root(total as usize))
}

pub const SIZES: [usize; 13] = [0, 1, 63, 64, 65, 1984, 2047, 2048, 2049, 4096, 6144, 16 * 2048, 17 * 2048 + 1];

pub fn enumerate(ctx: &Ctx) {
    note_platforms(ctx);
    let plats = platforms();

    // All sequences over an alphabet of sizes.
    let depth = ctx.q(4, 6);
    let data = content(ctx.seed, 0, SIZES[12] * (depth + 1) + CHUNK);
    let memos: Vec<_> = (0..3).map(|m| memo_for(&data, m)).collect();
    let alphabet: Vec<u64> = SIZES.iter().map(|&s| op(s, 0)).collect();
    let mut jobs: Vec<(u64, u64, usize, u64)> = Vec::new();
    for m in 0..3 {
        for &p in &plats {
            let d = if m == 0 { depth } else { depth - 1 };
            for &first in &alphabet {
                jobs.push((p, m, d, first));
            }
            // The Write trait.
            for way in 1..WAYS {
                for &s in &SIZES {
                    jobs.push((p, m, if way == 1 { 2 } else { 1 }, op(s, way)));
                }
            }
        }
    }
    ctx.par(jobs.len(), |i| {
        let (p, m, d, first) = jobs[i];
        force(p);
        let make = move || RustHasher(hasher(m));
        let w = World { make: &make, data: &data, memo: &memos[m as usize], finalize_between: false };
        let mut alpha = alphabet.clone();
        if first >> 48 != 0 {
            for way in 1..WAYS {
                alpha.extend(SIZES.iter().map(|&s| op(s, way)));
            }
        }
        let (s, t) = w.dfs(ctx, "seq", &[p, m], &mut vec![first], &alpha, d);
        ctx.cover(s, t, s);
    });
    ctx.sample(format!("all update sequences of length <= {} over sizes {:?}, and of length <= 3 mixing update and the ways of io::Write (write, write_all, write_vectored three ways, io::copy, dyn)", depth + 1, SIZES));

    // Every partition, by breadth-first search over exact states.
    struct Job {
        p: u64,
        m: u64,
        pos: Vec<usize>,
        ways: u64,
        what: String,
    }
    let mut jobs = Vec::new();
    for &p in &plats {
        let dense = ctx.q(2200, 6200);
        jobs.push(Job { p, m: 0, pos: (0..=dense).collect(), ways: 1, what: format!("every byte position up to {}", dense) });
        for m in 0..3 {
            let l = ctx.q(6, 20) * CHUNK + 64;
            jobs.push(Job { p, m, pos: positions(l, 64, &[0, 1, 63]), ways: ctx.q(2, WAYS), what: format!("positions 0, 1, 63 mod 64 up to {}", l) });
            let l = ctx.q(70, 300) * CHUNK + 1;
            jobs.push(Job { p, m, pos: positions(l, 2048, &[0, 1, 2047]), ways: 1, what: format!("positions 0, 1, 2047 mod 2048 up to {}", l) });
        }
    }
    let data = content(ctx.seed, 0, 301 * CHUNK);
    let memos: Vec<_> = (0..3).map(|m| memo_for(&data, m)).collect();
    ctx.par(jobs.len(), |i| {
        let j = &jobs[i];
        force(j.p);
        let m = j.m;
        let make = move || RustHasher(hasher(m));
        let w = World { make: &make, data: &data, memo: &memos[m as usize], finalize_between: false };
        match w.bfs(ctx, "seq", &[j.p, m], &j.pos, j.ways) {
            Some((s, t)) => ctx.cover(s, t, s),
            None => ctx.note("exact states unavailable (hook does not compile on this tree): only the sequence enumeration ran"),
        }
        ctx.sample(format!("all partitions with cuts at {} (fixpoint)", j.what));
    });

    // Many equal updates.
    let total = ctx.q(600_000, 8_000_000);
    let data = content(ctx.seed, 0, total + CHUNK);
    let memos: Vec<_> = (0..3).map(|m| memo_for(&data, m)).collect();
    let jobs: Vec<(u64, u64)> = plats.iter().flat_map(|&p| (0..3).map(move |m| (p, m))).collect();
    ctx.par(jobs.len(), |i| {
        let (p, m) = jobs[i];
        force(p);
        let make = move || RustHasher(hasher(m));
        World { make: &make, data: &data, memo: &memos[m as usize], finalize_between: false }.steady_all(ctx, &[p, m], total);
    });
    ctx.sample("up to 70000 updates of the same size (empty to 65537 bytes), finalized along the way or only at the end");

    // Single wide updates.
    let most = ctx.q(16 << 20, 256 << 20);
    let data = content(ctx.seed, 0, most + 4 * CHUNK);
    let m0 = memo_for(&data, 0);
    ctx.par(plats.len(), |i| {
        let p = plats[i];
        force(p);
        let make = move || RustHasher(hasher(0));
        World { make: &make, data: &data, memo: &m0, finalize_between: false }.wide_all(ctx, &[p, 0], most);
    });
    ctx.sample(format!("single updates of 2^k and 3*2^k chunks and their neighbours up to {} bytes, first and after 1 or 2048 bytes", most));

    // Past 4 GiB.
    let w = long(ctx);
    let m0 = memo(w, mode(0), w.max, ctx.threads);
    ctx.par(2 * plats.len(), |i| {
        let a = [plats[i / 2], 0, if i % 2 == 0 { 1 } else { 3 + 4096 * plats[i / 2] }];
        force(a[0]);
        ctx.guard("long", &a, || incremental(&mut RustHasher(hasher(0)), w, &m0, a[2]));
        ctx.cover(stops(w.max).len() as u64, w.max / CHUNK as u64, 1);
    });
    ctx.sample(format!("real input of {} bytes, finalized at {:?}", w.max, stops(w.max)));
}
