//! Exploration of incremental hashers: update sequences over an alphabet, and
//! breadth-first search over exact states.

use crate::spec::{Memo, Node};
use crate::{Ctx, Res};
use std::collections::HashMap;

pub trait Inc: Sized {
    /// Add input, through one of the ways the API offers.
    fn update(&mut self, input: &[u8], way: u64) -> Res;
    /// Compare every finalization the API offers with the expected root.
    fn verify(&self, root: &Node) -> Res;
    fn dup(&self) -> Option<Self>;
    /// Everything that can influence later behaviour, canonically.
    fn state(&self) -> Option<Vec<u8>>;
}

pub struct World<'a, 'm, T> {
    pub make: &'a (dyn Fn() -> T + Sync),
    pub data: &'a [u8],
    pub memo: &'a Memo<'m>,
    /// Does finalizing in the middle belong to the history?
    pub finalize_between: bool,
}

pub const WAY_SHIFT: u64 = 48;
const LEN_MASK: u64 = (1 << WAY_SHIFT) - 1;

pub fn op(len: usize, way: u64) -> u64 {
    (way << WAY_SHIFT) | len as u64
}

impl<'a, 'm, T: Inc> World<'a, 'm, T> {
    fn step(&self, h: &mut T, pos: usize, op: u64) -> Result<usize, String> {
        let len = (op & LEN_MASK) as usize;
        let end = pos + len;
        if end > self.data.len() {
            return Err(format!("harness: path too long ({})", end));
        }
        h.update(&self.data[pos..end], op >> WAY_SHIFT)
            .map_err(|e| format!("update of {} bytes at {}: {}", len, pos, e))?;
        Ok(end)
    }

    fn verify(&self, h: &T, pos: usize) -> Res {
        h.verify(&self.memo.root(pos)).map_err(|e| format!("after {} bytes: {}", pos, e))
    }

    /// One history from scratch.
    pub fn run(&self, ops: &[u64]) -> Res {
        if self.finalize_between {
            let mut h = (self.make)();
            let mut pos = 0;
            self.verify(&h, 0)?;
            for &o in ops {
                pos = self.step(&mut h, pos, o)?;
                self.verify(&h, pos)?;
            }
        }
        // Again without the intermediate finalizations.
        let mut h = (self.make)();
        let mut pos = 0;
        for &o in ops {
            pos = self.step(&mut h, pos, o)?;
        }
        self.verify(&h, pos)
    }

    /// Many updates of the same size (0: empty ones between bytes). Finalized
    /// `verify` 0: only at the end; 1: after each of the first ones and then
    /// now and again; 2: before the first one and at the end.
    pub fn steady(&self, piece: usize, way: u64, total: usize, verify: u64) -> Res {
        let mut h = (self.make)();
        let (mut pos, mut k) = (0, 0u64);
        if verify == 2 {
            self.verify(&h, pos)?;
        }
        while pos < total {
            let n = if piece > 0 { piece } else { (k % 2) as usize };
            pos = self.step(&mut h, pos, op(std::cmp::min(n, total - pos), way))?;
            k += 1;
            if k % 4096 == 0 {
                crate::tick();
            }
            let near = |x: u64| (x + 2) % 256 < 4;
            if verify == 1 && (k < 300 || near(k) || k % 97 == 0) {
                self.verify(&h, pos)?;
            }
        }
        self.verify(&h, pos)
    }

    /// As a case of its own: `prefix` piece way total verify.
    pub fn steady_all(&self, ctx: &Ctx, prefix: &[u64], total: usize) {
        for &piece in &[0usize, 1, 2, 3, 7, 63, 64, 65, 127, 192, 1000, 2047, 2048, 2049, 3000, 4096, 8191, 16384, 65536, 65537] {
            for verify in [1, 0] {
                // Not more than some 70000 updates.
                let total = if piece < 2 { std::cmp::min(total, 70_000) } else { std::cmp::min(total, 20_000 * piece) };
                let mut args = prefix.to_vec();
                args.extend([piece as u64, 0, total as u64, verify]);
                ctx.guard("steady", &args, || self.steady(piece, 0, total, verify));
                let n = total as u64 / std::cmp::max(1, piece as u64);
                ctx.cover(n, n, 1);
            }
        }
        // Counters of a byte or two that come round.
        for piece in [1usize, 64, 2048] {
            for n in [127usize, 128, 129, 255, 256, 257, 511, 512, 1024, 65_535, 65_536, 65_537] {
                if n * piece > total {
                    continue;
                }
                let mut args = prefix.to_vec();
                args.extend([piece as u64, 0, (n * piece) as u64, 2]);
                ctx.guard("steady", &args, || self.steady(piece, 0, n * piece, 2));
                ctx.cover(n as u64, n as u64, 1);
            }
        }
    }

    /// Single updates of up to `max` bytes: powers of two of chunks, and their
    /// neighbours, first or after little. As case `seq` of `prefix`.
    pub fn wide_all(&self, ctx: &Ctx, prefix: &[u64], max: usize) {
        let mut sizes = vec![];
        let mut n = 8 * crate::spec::CHUNK;
        while n <= max {
            for d in [-1i64, 0, 1, 2048] {
                sizes.push(n as i64 + d);
            }
            sizes.push(n as i64 / 2 * 3);
            n *= 2;
        }
        for s in sizes {
            if s as usize > max {
                continue;
            }
            for before in [None, Some(1), Some(2048)] {
                let mut ops: Vec<u64> = before.into_iter().collect();
                ops.push(s as u64);
                ops.push(1);
                let mut args = prefix.to_vec();
                args.extend_from_slice(&ops);
                ctx.guard("seq", &args, || self.run(&ops));
                ctx.cover(ops.len() as u64, ops.len() as u64, 1);
            }
        }
    }

    fn rebuild(&self, ops: &[u64]) -> Result<T, String> {
        let mut h = (self.make)();
        let mut pos = 0;
        for &o in ops {
            pos = self.step(&mut h, pos, o)?;
        }
        Ok(h)
    }

    /// All operation sequences over `alphabet` up to `depth`, below `path`.
    /// Returns (states, transitions).
    pub fn dfs(&self, ctx: &Ctx, kind: &str, prefix: &[u64], path: &mut Vec<u64>, alphabet: &[u64], depth: usize) -> (u64, u64) {
        let mut args = prefix.to_vec();
        args.extend_from_slice(path);
        let mut h = None;
        let ok = ctx.guard_confirmed(kind, &args, || {
            let b = self.rebuild(path)?;
            let pos: usize = path.iter().map(|o| (o & LEN_MASK) as usize).sum();
            self.verify(&b, pos)?;
            h = Some((b, pos));
            Ok(())
        });
        let mut count = (1, path.len() as u64);
        if !ok {
            return count;
        }
        let (h, pos) = h.unwrap();
        if depth > 0 {
            self.dfs_rec(ctx, kind, &mut args, &h, pos, alphabet, depth, &mut count, path);
        }
        count
    }

    fn dfs_rec(&self, ctx: &Ctx, kind: &str, args: &mut Vec<u64>, h: &T, pos: usize, alphabet: &[u64], depth: usize, count: &mut (u64, u64), path: &mut Vec<u64>) {
        for &o in alphabet {
            if ctx.stopped() {
                return;
            }
            args.push(o);
            path.push(o);
            let mut next = None;
            let ok = ctx.guard_confirmed(kind, args, || {
                let mut c = match h.dup() {
                    Some(c) => c,
                    None => self.rebuild(&path[..path.len() - 1])?,
                };
                let p = self.step(&mut c, pos, o)?;
                self.verify(&c, p)?;
                next = Some((c, p));
                Ok(())
            });
            count.0 += 1;
            count.1 += 1;
            if ok && depth > 1 {
                let (c, p) = next.unwrap();
                self.dfs_rec(ctx, kind, args, &c, p, alphabet, depth - 1, count, path);
            }
            args.pop();
            path.pop();
        }
    }

    /// Breadth-first search to a fixpoint: from every distinct reachable state
    /// at every listed position, one update to every later listed position (and
    /// an empty update), until no new state appears. Covers every partition of
    /// every message whose cuts lie on the listed positions. Returns None if
    /// the exact state is not available.
    pub fn bfs(&self, ctx: &Ctx, kind: &str, prefix: &[u64], positions: &[usize], ways: u64) -> Option<(u64, u64)> {
        let h0 = (self.make)();
        let s0 = h0.state()?;
        h0.dup()?;
        assert_eq!(positions[0], 0);
        struct St<T> {
            h: T,
            path: Vec<u64>,
        }
        let mut at: Vec<HashMap<Vec<u8>, usize>> = positions.iter().map(|_| HashMap::new()).collect();
        let mut sts: Vec<Vec<Option<St<T>>>> = positions.iter().map(|_| Vec::new()).collect();
        at[0].insert(s0, 0);
        sts[0].push(Some(St { h: h0, path: vec![] }));
        let (mut states, mut transitions) = (0u64, 0u64);
        let mut args: Vec<u64> = Vec::new();
        for i in 0..positions.len() {
            let mut k = 0;
            while k < sts[i].len() {
                if ctx.stopped() {
                    return Some((states, transitions));
                }
                let st = sts[i][k].take().unwrap();
                k += 1;
                states += 1;
                args.clear();
                args.extend_from_slice(prefix);
                args.extend_from_slice(&st.path);
                if !ctx.guard_confirmed(kind, &args, || self.verify(&st.h, positions[i])) {
                    return Some((states, transitions));
                }
                // The history that led here, again from scratch.
                if !ctx.guard(kind, &args, || self.run(&st.path)) {
                    return Some((states, transitions));
                }
                for j in i..positions.len() {
                    for way in 0..ways {
                        let o = op(positions[j] - positions[i], way);
                        args.push(o);
                        let mut next = None;
                        let ok = ctx.guard_confirmed(kind, &args, || {
                            let mut c = st.h.dup().unwrap();
                            self.step(&mut c, positions[i], o)?;
                            next = Some(c);
                            Ok(())
                        });
                        args.pop();
                        transitions += 1;
                        if !ok {
                            return Some((states, transitions));
                        }
                        let c = next.unwrap();
                        let key = c.state().unwrap();
                        if !at[j].contains_key(&key) {
                            let n = sts[j].len();
                            if n >= 64 || st.path.len() > 100 {
                                // The state is not canonical: the search would
                                // not reach a fixpoint. Report, don't pretend.
                                ctx.capped(format!("{}: more than 64 distinct states at position {}; search capped", kind, positions[j]));
                                continue;
                            }
                            at[j].insert(key, n);
                            let mut path = st.path.clone();
                            path.push(o);
                            sts[j].push(Some(St { h: c, path }));
                        }
                    }
                }
            }
            at[i].clear();
        }
        Some((states, transitions))
    }
}

/// Positions 0..=max whose residue modulo `m` is in `residues`.
pub fn positions(max: usize, m: usize, residues: &[usize]) -> Vec<usize> {
    (0..=max).filter(|p| residues.contains(&(p % m))).collect()
}
