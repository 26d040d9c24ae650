//! One-shot hashing against the definition, for every length in bounds.

use crate::common::*;
use mcx::longrun::{long, memo, G};
use mcx::{spec, Ctx, Res};

fn data(ctx: &Ctx, c: u64, n: usize) -> Vec<u8> {
    content(ctx.seed, c, n)
}

/// len: backend mode content length
/// long: backend mode length             (a repeating content)
/// flip: backend mode length position   (one byte of zeros set to 0xff)
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    force(a[0]);
    match kind {
        "len" => {
            let d = data(ctx, a[2], a[3] as usize);
            check_one_shot(a[1], &d, &spec::tree(&d, 0, &mode(a[1])))
        }
        "long" => {
            let w = long(ctx);
            check_one_shot(a[1], &w.mem.bytes()[..a[2] as usize], &memo(w, mode(a[1]), a[2], ctx.threads).root(a[2] as usize))
        }
        "flip" => {
            let mut d = vec![0; a[2] as usize];
            d[a[3] as usize] ^= 0xff;
            check_one_shot(a[1], &d, &spec::tree(&d, 0, &mode(a[1])))
        }
        _ => panic!("harness: unknown case"),
    }
}

pub fn enumerate(ctx: &Ctx) {
    note_platforms(ctx);
    let plats = platforms();

    // Every length, for the three modes.
    let dense = ctx.q(33, 130) * CHUNK + 70;
    // Every chunk count, one byte around and a partial block around.
    let sparse = ctx.q(520, 2100);
    // Powers of two.
    let big = ctx.q(1 << 12, 1 << 15);

    let max = (big + 2) * CHUNK;
    let d = data(ctx, 0, max);
    let mut lens: Vec<(u64, usize)> = Vec::new();
    for m in 0..3 {
        for l in 0..=dense {
            lens.push((m, l));
        }
    }
    for n in dense / CHUNK..=sparse {
        for delta in [-65i64, -1, 0, 1, 64] {
            lens.push(((n % 3) as u64, (n as i64 * CHUNK as i64 + delta) as usize));
        }
    }
    let mut p = sparse.next_power_of_two();
    while p <= big {
        for delta in [-1i64, 0, 1] {
            for c in [-1i64, 0, 1] {
                lens.push((0, ((p as i64 + c) * CHUNK as i64 + delta) as usize));
            }
        }
        p *= 2;
    }
    lens.sort_by_key(|x| x.1);
    let memos: Vec<_> = (0..3).map(|m| memo_for(&d, m)).collect();
    let step = 64;
    ctx.par((lens.len() + step - 1) / step, |i| {
        let mut n = 0;
        for &(m, l) in &lens[i * step..std::cmp::min(lens.len(), (i + 1) * step)] {
            let root = memos[m as usize].root(l);
            for &p in &plats {
                force(p);
                // A different misalignment of the input for each length.
                ctx.guard("len", &[p, m, 0, l as u64], || check_one_shot(m, &d[..l], &root));
                n += 1;
            }
        }
        ctx.cover(n / plats.len() as u64, 2 * n, n);
    });
    ctx.sample(format!("every length 0..={} in 3 modes; every chunk count up to {} with 5 offsets; powers of two up to {} chunks", dense, sparse, big));

    // Keys and contents, over the lengths that matter for padding and shape.
    let shapes: Vec<usize> = vec![
        0, 1, 31, 32, 63, 64, 65, 127, 128, 129, 2047, 2048, 2049, 2112, 4095, 4096, 4097, 6144, 6145, 8192, 8193,
        10241, 16384, 16385, 18433, 32768, 34817,
    ];
    let keys = ctx.q(4 + 256, 4 + 256);
    let shapes_ref = &shapes;
    ctx.par(shapes.len(), |i| {
        let l = shapes_ref[i];
        let mut n = 0;
        for &p in &plats {
            for c in 0..4 {
                for m in 0..(2 * KEYS as u64 + 1) {
                    ctx.case("len", &[p, m, c, l as u64]);
                    n += 1;
                }
            }
            if l <= 4097 {
                for k in KEYS..keys {
                    for m in [2 * k as u64 + 1, 2 * k as u64 + 2] {
                        ctx.case("len", &[p, m, 0, l as u64]);
                        n += 1;
                    }
                }
            }
        }
        ctx.cover(n / plats.len() as u64, 2 * n, n);
    });
    ctx.sample(format!("lengths {:?} x 4 contents x 9 modes; single-bit keys for lengths up to 4097", shapes));

    // Every single byte position of a message matters, and in the right place.
    let flips: Vec<usize> = ctx.q(vec![65, 2049, 5 * CHUNK], vec![65, 2049, 5 * CHUNK, 9 * CHUNK + 1, 17 * CHUNK]);
    for l in flips {
        let m = (l % 3) as u64;
        let base = vec![0u8; l];
        let _ = base;
        ctx.par((l + 63) / 64, |i| {
            let mut n = 0;
            for pos in i * 64..std::cmp::min(l, i * 64 + 64) {
                for &p in &plats {
                    ctx.case("flip", &[p, m, l as u64, pos as u64]);
                    n += 1;
                }
            }
            ctx.cover(n / plats.len() as u64, 2 * n, n);
        });
    }
    // Powers of two up to and across 4 GiB.
    let w = long(ctx);
    for m in ctx.q(0..1, 0..3) {
        let m0 = memo(w, mode(m), w.max, ctx.threads);
        let mut jobs = Vec::new();
        for &p in &plats {
            let mut edges: Vec<u64> = (25..32).map(|k| 1u64 << k).collect();
            edges.extend([3 << 29, 5 << 27]);
            for e in edges {
                for d in ctx.q(vec![1i64, -1], vec![-2049, -1, 0, 1, 2049]) {
                    // The slowest backend only where it matters most.
                    if p != 1 || e < 1 << 30 || !ctx.quick() {
                        jobs.push((p, (e as i64 + d) as u64));
                    }
                }
            }
            jobs.push((p, 4 * G + 2 * 2048 + 1));
            if !ctx.quick() {
                for d in [-2049i64, -1, 0, 1, 70_000] {
                    jobs.push((p, (4 * G as i64 + d) as u64));
                }
                jobs.push((p, 8 * G + 1));
            }
        }
        jobs.sort_by_key(|j| std::cmp::Reverse(j.1));
        ctx.par(jobs.len(), |i| {
            let (p, l) = jobs[i];
            force(p);
            ctx.guard("long", &[p, m, l], || check_one_shot(m, &w.mem.bytes()[..l as usize], &m0.root(l as usize)));
            ctx.cover(1, 2, 1);
        });
    }
    ctx.sample("lengths around powers of two (and 1.5, 1.25 times them) from 2^25 up to 2^32 and just beyond");
    ctx.note("input contents are a fixed alphabet (position-dependent, zeros, ones, period 251, single flipped bytes); lengths are exhaustive within the stated bounds");
}
