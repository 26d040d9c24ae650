//! Finalizing and cloning never disturb a hash in progress.

use crate::common::*;
use baokeshed::{Hasher, Output};
use mcx::spec::{self, Memo};
use mcx::{Ctx, Res};
use std::cell::RefCell;
use std::collections::HashMap;

// A model hasher is just how many bytes of which stream it has absorbed:
// stream s continues differently after a clone, so that leaks between clones
// change the digest.
#[derive(Clone)]
enum Handle {
    Hasher(Hasher, Vec<(u8, u32)>),
    Output(Output, Vec<(u8, u32)>, u64),
}

const SIZES: [usize; 6] = [0, 1, 64, 2047, 2048, 35 * 1024 + 3];
const STREAMS: usize = 3;
const MAX_HANDLES: usize = 3;

fn streams(ctx: &Ctx) -> Vec<Vec<u8>> {
    (0..STREAMS).map(|i| content(ctx.seed + 100 * i as u64, 0, 40 << 10)).collect()
}

fn message(streams: &[Vec<u8>], parts: &[(u8, u32)]) -> Vec<u8> {
    let mut v = Vec::new();
    for &(s, n) in parts {
        v.extend_from_slice(&streams[s as usize][..n as usize]);
    }
    v
}

thread_local! {
    static ROOTS: RefCell<HashMap<(u64, Vec<(u8, u32)>), spec::Node>> = RefCell::new(HashMap::new());
}

// The expected root, remembered per thread.
fn root(streams: &[Vec<u8>], m: u64, parts: &[(u8, u32)]) -> spec::Node {
    let parts: Vec<(u8, u32)> = parts.iter().copied().filter(|p| p.1 > 0).collect();
    ROOTS.with(|r| {
        *r.borrow_mut().entry((m, parts)).or_insert_with_key(|(m, parts)| {
            let d = message(streams, parts);
            let memo: Memo = memo_for(&d, *m);
            memo.root(d.len())
        })
    })
}

// Operations: code = kind*16 + handle
//   kind 0..6  update with SIZES[kind] bytes of the handle's stream
//   kind 6     finalize, check, finalize again, check
//   kind 7     finalize_xof: a new Output handle
//   kind 8     clone (the new handle, hasher or output)
//   kind 9     read from an output
//   kind 10    drop the handle's clone by overwriting it with another handle's clone (clone_from)
fn apply(hs: &mut Vec<Handle>, streams: &[Vec<u8>], m: u64, code: u64) -> Res {
    let h = (code % 16) as usize;
    match code / 16 {
        k @ 0..=5 => {
            if let Handle::Hasher(x, parts) = &mut hs[h] {
                let n = SIZES[k as usize];
                x.update(&streams[h][..n]);
                parts.push((h as u8, n as u32));
            }
            Ok(())
        }
        6 => {
            if let Handle::Hasher(x, parts) = &hs[h] {
                let want = root(streams, m, parts);
                eq("finalize", x.finalize().as_bytes(), &want.hash())?;
                eq("second finalize", x.finalize().as_bytes(), &want.hash())?;
                eq("finalize_xof", &x.finalize_xof().read()[..], &want.out(0))?;
            }
            Ok(())
        }
        7 => {
            if let Handle::Hasher(x, parts) = &hs[h] {
                let o = Handle::Output(x.finalize_xof(), parts.clone(), 0);
                hs.push(o);
            }
            Ok(())
        }
        8 => {
            let c = hs[h].clone();
            hs.push(c);
            Ok(())
        }
        9 => {
            if let Handle::Output(x, parts, pos) = &mut hs[h] {
                let want = root(streams, m, parts);
                eq(&format!("read number {}", pos), &x.read()[..], &want.out(*pos))?;
                *pos += 1;
            }
            Ok(())
        }
        _ => {
            let src = (h + 1) % hs.len();
            let s = hs[src].clone();
            match (&mut hs[h], &s) {
                (Handle::Hasher(a, p), Handle::Hasher(b, q)) => {
                    a.clone_from(b);
                    *p = q.clone();
                }
                (Handle::Output(a, p, i), Handle::Output(b, q, j)) => {
                    a.clone_from(b);
                    *p = q.clone();
                    *i = *j;
                }
                _ => {}
            }
            Ok(())
        }
    }
}

fn verify_all(hs: &[Handle], streams: &[Vec<u8>], m: u64) -> Res {
    for (i, h) in hs.iter().enumerate() {
        let r = match h {
            Handle::Hasher(x, parts) => {
                let want = root(streams, m, parts);
                eq("finalize", x.finalize().as_bytes(), &want.hash())
            }
            Handle::Output(x, parts, pos) => {
                let want = root(streams, m, parts);
                eq("next read", &x.clone().read()[..], &want.out(*pos))
            }
        };
        r.map_err(|e| format!("handle {} at the end: {}", i, e))?;
    }
    Ok(())
}

/// The same thing `n` times, between two looks at the state.
/// what 0: updates; 1: finalizations; 2: clones of clones; 3: output blocks
fn gap(m: u64, what: u64, n: u64, piece: usize) -> Res {
    let data = content(77, 0, 100 + (n as usize + 2) * piece);
    let want = |len: usize| spec::tree(&data[..len], 0, &crate::common::mode(m));
    let mut h = hasher(m);
    h.update(&data[..100]);
    let mut at = 100;
    eq("finalize before", h.finalize().as_bytes(), &want(at).hash())?;
    let early = h.clone();
    match what {
        0 => {
            for _ in 0..n {
                h.update(&data[at..at + piece]);
                at += piece;
            }
        }
        1 => {
            let w = want(at).hash();
            for i in 0..n {
                eq(&format!("finalization {}", i), h.finalize().as_bytes(), &w)?;
            }
        }
        2 => {
            for _ in 0..n {
                h = h.clone();
            }
        }
        _ => {
            let node = want(at);
            let mut o = h.finalize_xof();
            let kept = o.clone();
            for i in 0..n {
                eq(&format!("output block {}", i), &o.read()[..], &node.out(i))?;
            }
            eq("output block of a clone", &o.clone().read()[..], &node.out(n))?;
            eq("output block afterwards", &o.read()[..], &node.out(n))?;
            eq("first block of a clone", &kept.clone().read()[..], &node.out(0))?;
        }
    }
    eq("finalize after", h.finalize().as_bytes(), &want(at).hash())?;
    h.update(&data[at..at + piece]);
    at += piece;
    eq("finalize in the end", h.finalize().as_bytes(), &want(at).hash())?;
    eq("the clone from before", early.finalize().as_bytes(), &want(100).hash())
}

/// ops: backend mode op...
/// gap: backend mode what times piece
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    if kind == "gap" {
        force(a[0]);
        return gap(a[1], a[2], a[3], a[4] as usize);
    }
    force(a[0]);
    let s = streams(ctx);
    let m = a[1];
    let mut hs = vec![Handle::Hasher(hasher(m), vec![])];
    for &op in &a[2..] {
        apply(&mut hs, &s, m, op)?;
    }
    verify_all(&hs, &s, m)
}

struct Walk<'a> {
    ctx: &'a Ctx,
    streams: &'a [Vec<u8>],
    args: Vec<u64>,
    updates: &'a [u64],
    sequences: u64,
    ops: u64,
}

impl<'a> Walk<'a> {
    // Depth-first over operation sequences. The sequences themselves are run
    // from scratch: sharing prefixes would rely on clone, which is on trial.
    fn go(&mut self, kinds: &[bool], depth: usize) {
        if depth == 0 {
            self.sequences += 1;
            self.ops += (self.args.len() - 2) as u64;
            let (ctx, streams) = (self.ctx, self.streams);
            let args = self.args.clone();
            ctx.guard("ops", &args, || {
                let m = args[1];
                let mut hs = vec![Handle::Hasher(hasher(m), vec![])];
                for &op in &args[2..] {
                    apply(&mut hs, streams, m, op)?;
                }
                verify_all(&hs, streams, m)
            });
            return;
        }
        for h in 0..kinds.len() {
            let mut codes: Vec<u64> = Vec::new();
            if kinds[h] {
                codes.extend(self.updates);
                codes.push(6);
                if kinds.len() < MAX_HANDLES {
                    codes.push(7);
                }
            } else {
                codes.push(9);
            }
            if kinds.len() < MAX_HANDLES {
                codes.push(8);
            }
            if kinds.len() >= 2 && kinds[(h + 1) % kinds.len()] == kinds[h] {
                codes.push(10);
            }
            for k in codes {
                if self.ctx.stopped() {
                    return;
                }
                self.args.push(k * 16 + h as u64);
                let mut next = kinds.to_vec();
                match k {
                    7 => next.push(false),
                    8 => next.push(kinds[h]),
                    _ => {}
                }
                self.go(&next, depth - 1);
                self.args.pop();
            }
        }
    }
}

pub fn enumerate(ctx: &Ctx) {
    note_platforms(ctx);
    let plats = platforms();
    let s = streams(ctx);
    // All update kinds to one depth, fewer update kinds deeper.
    let mut jobs: Vec<(u64, u64, Vec<u64>, usize, u64, usize)> = Vec::new();
    for &p in &plats {
        for m in 0..3 {
            for first in 0..6u64 {
                jobs.push((p, m, vec![0, 1, 2, 3, 4, 5], ctx.q(4, 5), first, 0));
                if first == 3 || first == 4 || first == 5 {
                    jobs.push((p, m, vec![1, 4], ctx.q(5, 6), first, 1));
                }
            }
        }
    }
    ctx.par(jobs.len(), |i| {
        let (p, m, updates, depth, first, _) = &jobs[i];
        force(*p);
        let mut w = Walk { ctx, streams: &s, args: vec![*p, *m, first * 16], updates, sequences: 0, ops: 0 };
        for d in 0..=*depth {
            w.go(&[true], d);
        }
        ctx.cover(w.sequences, w.ops, w.sequences);
    });
    // Counters of a byte or two that come round between two looks.
    let mut gaps: Vec<Vec<u64>> = vec![];
    for n in (0..=ctx.q(20, 300u64)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 4096, 32_768, 65_534, 65_535, 65_536, 65_537]) {
        for (what, piece) in [(0, 0u64), (0, 1), (0, 64), (0, 2048), (0, 2049), (1, 65), (2, 64), (3, 3)] {
            if n * piece <= 5 << 20 {
                for &p in &plats {
                    gaps.push(vec![p, (n + what) % 3, what, n, piece]);
                }
            }
        }
    }
    ctx.par(gaps.len(), |i| {
        ctx.case("gap", &gaps[i]);
        ctx.cover(1, gaps[i][3] + 3, 1);
    });
    ctx.sample("up to 65537 updates, finalizations, clones or output blocks between two looks at the state");
    ctx.sample(format!(
        "all histories of <= {} operations over <= {} handles: update by one of {:?}, finalize twice, finalize_xof, clone, clone_from, read; every handle verified at the end",
        ctx.q(5, 6), MAX_HANDLES, SIZES
    ));
    ctx.sample(format!("histories of <= {} operations with updates of 1 or 2048 bytes after a first update of 2047, 2048 or {} bytes", ctx.q(6, 7), SIZES[5]));
}
