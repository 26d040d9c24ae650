//! Very long inputs in C: really past 4 GiB, and placed up to 2^64 bytes.

use crate::c11::{self, libs, libs32, CHasher};
use crate::clib;
use mcx::longrun::{incremental, long, memo, stops};
use mcx::placed;
use mcx::spec::CHUNK;
use mcx::{Ctx, Res};

/// placed: library mode chunks form op...
/// inc: library mode plan
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    match kind {
        "placed" => {
            c11::set_current(a[0]);
            placed::check::<CHasher>(c11::mode, &a[1..])
        }
        "inc" => {
            let w = long(ctx);
            let m = memo(w, c11::mode(a[1]), w.max, ctx.threads);
            incremental(&mut CHasher::new(clib::lib(a[0]).unwrap(), a[1]), w, &m, a[2])
        }
        _ => panic!("harness: unknown case"),
    }
}

pub fn enumerate(ctx: &Ctx) {
    let tools = clib::tools(ctx);
    let plain = libs(&tools[..1], false);
    let probed = libs(&tools[..1], true);
    ctx.info("builds", plain.iter().map(|&n| clib::lib(n).unwrap().name.clone()).collect::<Vec<_>>().join("; "));
    if let Some(&n) = probed.first() {
        // Calibration happens on this thread.
        c11::set_current(n);
        let prefixes: Vec<Vec<u64>> = probed.iter().map(|&p| vec![p]).collect();
        placed::enumerate::<CHasher>(ctx, "placed", &prefixes, 3, 0, |a| check(ctx, "placed", a));
    } else {
        ctx.note("placed states are not available on this tree: only real inputs were explored");
    }
    // Lengths and counts of the object's own must not be of the machine's size.
    for t in clib::tools32(ctx) {
        let probed = libs32(t, true);
        if let Some(&n) = probed.first() {
            c11::set_current(n);
            // Portable, and the widest.
            let few = if ctx.quick() { vec![probed[0], *probed.last().unwrap()] } else { probed.clone() };
            let prefixes: Vec<Vec<u64>> = few.iter().map(|&p| vec![p]).collect();
            placed::enumerate::<CHasher>(ctx, "placed", &prefixes, 3, 0, |a| check(ctx, "placed", a));
            ctx.info("32-bit builds", few.iter().map(|&n| clib::lib(n).unwrap().name.clone()).collect::<Vec<_>>().join("; "));
        }
    }
    if ctx.stopped() {
        return;
    }
    let w = long(ctx);
    let m0 = memo(w, c11::mode(0), w.max, ctx.threads);
    let mut jobs = Vec::new();
    for &n in &plain {
        jobs.push((n, 1));
        if !ctx.quick() {
            jobs.push((n, 0));
            jobs.push((n, 2));
        }
    }
    // One update longer than 4 GiB: the widest build is the fastest.
    let slow = |n: u64| clib::lib(n).map_or(true, |l| l.name.contains("portable") || l.name.contains("neon"));
    let (fast, others): (Vec<u64>, Vec<u64>) = plain.iter().partition(|&&n| !slow(n));
    for (i, &n) in fast.iter().rev().chain(&others).enumerate().take(ctx.q(2, 99)) {
        jobs.push((n, 3 + 100 * i as u64));
    }
    ctx.par(jobs.len(), |i| {
        let (n, plan) = jobs[i];
        let lib = clib::lib(n).unwrap();
        ctx.guard("inc", &[n, 0, plan], || incremental(&mut CHasher::new(lib, 0), w, &m0, plan));
        ctx.cover(stops(w.max).len() as u64, w.max / CHUNK as u64, 1);
    });
    ctx.sample(format!("real inputs of up to {} bytes, finalized at {:?}", w.max, stops(w.max)));
}
