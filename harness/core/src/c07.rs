//! Very long inputs: really past 4 GiB, and placed up to 2^64 bytes.

use crate::c17::Ref;
use crate::common::*;
use mcx::longrun::{incremental, long, memo, stops, G};
use mcx::placed::{self, Place};
use mcx::spec::{self, Cv};
use mcx::{Ctx, Res};

impl Place for RustHasher {
    fn fresh(m: u64) -> Self {
        RustHasher(hasher(m))
    }
    #[cfg(baokeshed_verif_state)]
    fn place(m: u64, cvs: &[Cv], chunks: u64) -> Option<Self> {
        let bytes: Vec<[u8; 32]> = cvs.iter().map(spec::cv_bytes).collect();
        let mut h = hasher(m);
        h.verif_place(&bytes, chunks * CHUNK as u64);
        Some(RustHasher(h))
    }
    #[cfg(not(baokeshed_verif_state))]
    fn place(_: u64, _: &[Cv], _: u64) -> Option<Self> {
        None
    }
}

impl Place for Ref {
    fn fresh(m: u64) -> Self {
        crate::c17::make(m)
    }
    #[cfg(baokeshed_verif_state)]
    fn place(m: u64, cvs: &[Cv], chunks: u64) -> Option<Self> {
        let mut h = crate::c17::make(m);
        h.0.verif_place(cvs, chunks * CHUNK as u64);
        Some(h)
    }
    #[cfg(not(baokeshed_verif_state))]
    fn place(_: u64, _: &[Cv], _: u64) -> Option<Self> {
        None
    }
}

/// inc: backend mode plan
/// one: backend mode len
/// ref: mode plan
/// placed / placedref
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    match kind {
        "placed" => {
            force(a[0]);
            placed::check::<RustHasher>(mode, &a[1..])
        }
        "placedref" => placed::check::<Ref>(mode, a),
        "inc" => {
            force(a[0]);
            let w = long(ctx);
            incremental(&mut RustHasher(hasher(a[1])), w, &memo(w, mode(a[1]), w.max, ctx.threads), a[2])
        }
        "ref" => {
            let w = long(ctx);
            incremental(&mut crate::c17::make(a[0]), w, &memo(w, mode(a[0]), w.max, ctx.threads), a[1])
        }
        "one" => {
            force(a[0]);
            let w = long(ctx);
            check_one_shot(a[1], &w.mem.bytes()[..a[2] as usize], &memo(w, mode(a[1]), a[2], ctx.threads).root(a[2] as usize))
        }
        _ => panic!("harness: unknown case"),
    }
}

pub fn enumerate(ctx: &Ctx) {
    note_platforms(ctx);
    let plats = platforms();
    let prefixes: Vec<Vec<u64>> = plats.iter().map(|&p| vec![p]).collect();
    placed::enumerate::<RustHasher>(ctx, "placed", &prefixes, 3, 0, |a| check(ctx, "placed", a));
    if ctx.stopped() {
        return;
    }
    placed::enumerate::<Ref>(ctx, "placedref", &[vec![]], 3, 1, |a| check(ctx, "placedref", a));
    if ctx.stopped() {
        return;
    }

    let w = long(ctx);
    let m0 = memo(w, mode(0), w.max, ctx.threads);
    let mut jobs: Vec<(&str, Vec<u64>)> = Vec::new();
    for &p in &plats {
        jobs.push(("one", vec![p, 0, 4 * G + 3 * 2048 + 1]));
        jobs.push(("inc", vec![p, 0, 1]));
        jobs.push(("inc", vec![p, 0, 3 + 100 * p]));
        if !ctx.quick() {
            jobs.push(("inc", vec![p, 0, 0]));
        }
        if p != 1 || !ctx.quick() {
            jobs.push(("one", vec![p, 0, 4 * G]));
        }
        if !ctx.quick() {
            jobs.push(("inc", vec![p, 0, 2]));
            for l in [4 * G - 1, 4 * G + 1, 8 * G + 2049, 16 * G + 1, w.max] {
                jobs.push(("one", vec![p, 0, l]));
            }
        }
    }
    if !ctx.quick() {
        jobs.push(("ref", vec![0, 1]));
    }
    ctx.par(jobs.len(), |i| {
        let (k, a) = &jobs[i];
        let bytes = match *k {
            "one" => {
                force(a[0]);
                ctx.guard(k, a, || check_one_shot(a[1], &w.mem.bytes()[..a[2] as usize], &m0.root(a[2] as usize)));
                a[2]
            }
            "inc" => {
                force(a[0]);
                ctx.guard(k, a, || incremental(&mut RustHasher(hasher(a[1])), w, &m0, a[2]));
                w.max
            }
            _ => {
                ctx.guard(k, a, || incremental(&mut crate::c17::make(a[0]), w, &m0, a[1]));
                w.max
            }
        };
        ctx.cover(stops(w.max).len() as u64, bytes / CHUNK as u64, 1);
    });
    ctx.sample(format!("real inputs of up to {} bytes, one-shot and incremental, finalized at {:?}", w.max, stops(w.max)));
    ctx.note("the subtrees before a placed position stand for arbitrary messages: their chaining values are opaque");
}
