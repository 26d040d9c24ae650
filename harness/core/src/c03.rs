//! Extended output: read and clone histories, and one long linear read.

use crate::common::*;
use baokeshed::Output;
use mcx::{spec, spec::Node, Ctx, Res};

const MAX_HANDLES: usize = 3;

fn source(m: u64, src: u64, data: &[u8]) -> Output {
    match src {
        0 => one_shot_xof(m, data),
        1 => {
            let mut h = hasher(m);
            h.update(data);
            h.finalize_xof()
        }
        _ => {
            let mut h = hasher(m);
            for part in data.chunks(777) {
                h.update(part);
            }
            h.finalize_xof()
        }
    }
}

fn read_at(out: &mut Output, i: u64, want: &[u8; 64]) -> Res {
    let got = out.read();
    if got[..] == want[..] {
        Ok(())
    } else {
        Err(format!("read number {} of this stream: got {} want {}", i, hex(&got), hex(want)))
    }
}

/// ops: backend mode length source op...   op = handle*2 + (0 read | 1 clone)
/// sweep: backend mode length reads every
/// seek: backend mode length block           continued far into the stream
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    force(a[0]);
    let data = content(ctx.seed, 0, a[2] as usize);
    let root = spec::tree(&data, 0, &mode(a[1]));
    match kind {
        "ops" => {
            let mut hs = vec![(source(a[1], a[3], &data), 0u64)];
            let fresh = hs[0].0.clone();
            eq("to_hash", fresh.to_hash().as_bytes(), &root.hash())?;
            for &op in &a[4..] {
                let h = (op / 2) as usize;
                if op % 2 == 0 {
                    let pos = hs[h].1;
                    read_at(&mut hs[h].0, pos, &root.out(pos))?;
                    hs[h].1 += 1;
                } else {
                    let c = hs[h].clone();
                    hs.push(c);
                }
            }
            for (out, pos) in &mut hs {
                for k in 0..2 {
                    read_at(out, *pos + k, &root.out(*pos + k))?;
                }
            }
            Ok(())
        }
        #[cfg(baokeshed_verif_state)]
        "seek" => seek(a[1], &data, &root, a[3]),
        "sweep" => {
            let mut out = source(a[1], 0, &data);
            let every = a[4];
            for i in 0..a[3] {
                // The offset in bytes is 64 * i: windows around every power of two.
                let bytes = i * 64;
                let near = i < 4096 || (bytes + 512).count_ones() <= 3 || near_power(bytes);
                if near || i % every == 0 {
                    read_at(&mut out, i, &root.out(i))?;
                    if near {
                        let mut c = out.clone();
                        read_at(&mut c, i + 1, &root.out(i + 1))?;
                    }
                } else {
                    out.read();
                }
                if i % 65536 == 0 {
                    mcx::tick();
                }
            }
            Ok(())
        }
        _ => panic!("harness: unknown case"),
    }
}

#[cfg(baokeshed_verif_state)]
fn seek(m: u64, data: &[u8], root: &Node, block: u64) -> Res {
    let mut out = source(m, 0, data);
    out.verif_seek(block * 64);
    for i in 0..2 {
        let mut c = out.clone();
        read_at(&mut out, block + i, &root.out(block + i))?;
        for k in 0..2 {
            read_at(&mut c, block + i + k, &root.out(block + i + k))?;
        }
    }
    Ok(())
}

/// Is an output moved to a position the same as one that got there by reading?
#[cfg(baokeshed_verif_state)]
fn seekable() -> bool {
    let mut read = source(0, 0, b"calibrate");
    (0..70u64).all(|i| {
        let mut moved = source(0, 0, b"calibrate");
        moved.verif_seek(i * 64);
        let same = moved.read()[..] == read.clone().read()[..];
        read.read();
        same && moved.read()[..] == read.clone().read()[..]
    })
}

#[cfg(baokeshed_verif_state)]
fn enumerate_far(ctx: &Ctx, plats: &[u64]) {
    if !mcx::run_caught_value(seekable).unwrap_or(false) {
        ctx.note("outputs cannot be placed far into their stream on this tree: only real reads were explored");
        return;
    }
    let mut blocks = Vec::new();
    // The last piece of the 2^64 bytes is out of reach: the position behind it
    // does not exist.
    let last = u64::MAX / 64 - 4;
    for k in 0..58u32 {
        for d in -5i64..=5 {
            blocks.push((1i64 << k) + d);
        }
        for j in 0..k {
            for d in [-2i64, -1, 0] {
                blocks.push((1i64 << k) + (1i64 << j) + d);
                blocks.push((1i64 << k) - (1i64 << j) + d);
            }
        }
    }
    let mut blocks: Vec<u64> = blocks.into_iter().filter(|&b| b >= 0 && b as u64 <= last).map(|b| b as u64).chain([last]).collect();
    blocks.sort();
    blocks.dedup();
    let lens = ctx.q(vec![0u64, 64, 5000], vec![0, 1, 64, 65, 2048, 2049, 5000, 40 * 2048 + 5]);
    let jobs: Vec<(u64, u64, u64)> =
        plats.iter().flat_map(|&p| lens.iter().enumerate().flat_map(move |(i, &l)| (0..5).filter(move |m| i == 0 || m % 3 == i as u64 % 3).map(move |m| (p, m, l)))).collect();
    ctx.par(jobs.len(), |i| {
        let (p, m, l) = jobs[i];
        force(p);
        let data = content(ctx.seed, 0, l as usize);
        let root: Node = spec::tree(&data, 0, &mode(m));
        for &b in &blocks {
            if !ctx.guard("seek", &[p, m, l, b], || seek(m, &data, &root, b)) {
                return;
            }
        }
        ctx.cover(blocks.len() as u64, 6 * blocks.len() as u64, blocks.len() as u64);
    });
    ctx.sample(format!("outputs placed at {} positions around sums of two powers of two up to byte 2^64 - {}", blocks.len(), u64::MAX - last * 64 + 1));
}

#[cfg(not(baokeshed_verif_state))]
fn enumerate_far(ctx: &Ctx, _: &[u64]) {
    ctx.note("outputs cannot be placed far into their stream on this tree (the hook does not compile): only real reads were explored");
}

fn near_power(x: u64) -> bool {
    let p = x.checked_next_power_of_two().unwrap_or(0);
    p.wrapping_sub(x) <= 1024 || x.wrapping_sub(p / 2) <= 1024
}

struct Walk<'a> {
    ctx: &'a Ctx,
    expect: &'a [[u8; 64]],
    args: Vec<u64>,
    states: u64,
    transitions: u64,
}

impl<'a> Walk<'a> {
    fn go(&mut self, hs: &[(Output, u64)], depth: usize) {
        self.states += 1;
        if depth == 0 || self.ctx.stopped() {
            return;
        }
        for h in 0..hs.len() {
            for c in 0..2 {
                if c == 1 && hs.len() == MAX_HANDLES {
                    continue;
                }
                self.args.push((h * 2 + c) as u64);
                let mut next: Vec<(Output, u64)> = hs.to_vec();
                let ctx = self.ctx;
                let expect = self.expect;
                let ok = ctx.guard("ops", &self.args, || {
                    if c == 0 {
                        let pos = next[h].1;
                        read_at(&mut next[h].0, pos, &expect[pos as usize])?;
                        next[h].1 += 1;
                    } else {
                        let c = next[h].clone();
                        next.push(c);
                    }
                    Ok(())
                });
                self.transitions += 1;
                if ok {
                    self.go(&next, depth - 1);
                } else {
                    return;
                }
                self.args.pop();
            }
        }
    }
}

pub fn enumerate(ctx: &Ctx) {
    note_platforms(ctx);
    let plats = platforms();
    let depth = ctx.q(6, 8);
    let lens = [0u64, 1, 63, 64, 65, 2047, 2048, 2049, 4096, 4097, 6145, 16 * 2048, 17 * 2048 + 1, 40 * 2048 + 5];
    let mut jobs = Vec::new();
    for &p in &plats {
        for m in 0..5u64 {
            for &l in &lens {
                for src in 0..3 {
                    jobs.push((p, m, l, src));
                }
            }
        }
    }
    // The long sweeps go first: they take longest.
    let reads = (1u64 << 26) + 2048;
    let mut sweeps = Vec::new();
    for &p in &plats {
        for l in ctx.q(vec![65u64], vec![0, 65, 5000]) {
            sweeps.push((p, 0u64, l));
        }
    }
    let every = ctx.q(1024, 1);
    ctx.par(sweeps.len() + jobs.len(), |i| {
        if i < sweeps.len() {
            let (p, m, l) = sweeps[i];
            ctx.case("sweep", &[p, m, l, reads, every]);
            ctx.cover(reads, reads, 1);
            return;
        }
        let (p, m, l, src) = jobs[i - sweeps.len()];
        force(p);
        let data = content(ctx.seed, 0, l as usize);
        let root: Node = spec::tree(&data, 0, &mode(m));
        let expect: Vec<[u8; 64]> = (0..depth as u64 + 1).map(|i| root.out(i)).collect();
        let mut first = None;
        if !ctx.guard("ops", &[p, m, l, src], || {
            let o = source(m, src, &data);
            eq("to_hash", o.clone().to_hash().as_bytes(), &root.hash())?;
            first = Some(o);
            Ok(())
        }) {
            return;
        }
        // Clone and to_hash above must not matter: take another one.
        let d = if src == 0 { depth } else { depth - 1 };
        let mut w = Walk { ctx, expect: &expect, args: vec![p, m, l, src], states: 0, transitions: 0 };
        w.go(&[(source(m, src, &data), 0)], d);
        ctx.cover(w.states, w.transitions, w.states);
        // A straight read of many blocks.
        ctx.case("sweep", &[p, m, l, 512, 1]);
        ctx.cover(512, 512, 1);
    });
    ctx.sample(format!("all read/clone histories of length <= {} over at most {} handles, for lengths {:?}, 5 modes, 3 sources", depth, MAX_HANDLES, lens));
    ctx.sample(format!("{} consecutive reads (past byte 2^32), every {}-th and all near powers of two compared", reads, every));
    enumerate_far(ctx, &plats);
}
