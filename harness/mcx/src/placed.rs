//! Hashers placed far into a message: subtrees before the position are only
//! known by their chaining values.

use crate::inc::Inc;
use crate::spec::{self, Cv, Mode, CHUNK};
use crate::{Ctx, Res};

/// How an implementation keeps the subtrees of `n` finished chunks.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    /// The last chunk has not been merged yet.
    LastApart,
    /// Everything that can be merged is.
    Merged,
}

/// Subtree sizes, in chunks, from the left.
pub fn sizes(n: u64, form: Form) -> Vec<u64> {
    let mut v = Vec::new();
    let m = match form {
        Form::LastApart => n - 1,
        Form::Merged => n,
    };
    for k in (0..64).rev() {
        if m >> k & 1 == 1 {
            v.push(1u64 << k);
        }
    }
    if form == Form::LastApart {
        v.push(1);
    }
    v
}

pub trait Place: Inc {
    fn fresh(m: u64) -> Self;
    /// None when the hook is not available.
    fn place(m: u64, cvs: &[Cv], chunks: u64) -> Option<Self>;
}

fn cvs(n: u64, form: Form) -> Vec<(u64, Cv)> {
    sizes(n, form)
        .iter()
        .enumerate()
        .map(|(i, &s)| {
            let mut b = [0; 32];
            b.copy_from_slice(&spec::fill(n ^ (i as u64) << 56, 32));
            (s, spec::cv_from(&b))
        })
        .collect()
}

/// Which form does the implementation use? Decided by comparing exact states
/// with hashers that really took in the chunks, for every small count.
pub fn calibrate<T: Place>(min_next: usize) -> Option<Form> {
    let mode = spec::mode_hash();
    let data = spec::fill(31, 110 * CHUNK);
    'form: for form in [Form::LastApart, Form::Merged] {
        for n in 2..=70u64 {
            let mut at = 0usize;
            let mut placed = Vec::new();
            for s in sizes(n, form) {
                let part = &data[at..at + s as usize * CHUNK];
                placed.push(spec::tree(part, at as u64, &mode).chain());
                at += part.len();
            }
            let mut p = T::place(0, &placed, n)?;
            let mut whole = T::fresh(0);
            let mut each = T::fresh(0);
            if whole.update(&data[..at], 0).is_err() {
                return None;
            }
            for c in data[..at].chunks(CHUNK) {
                if each.update(c, 0).is_err() {
                    return None;
                }
            }
            if min_next > 0 {
                for h in [&mut p, &mut whole, &mut each] {
                    if h.update(&data[at..at + min_next], 0).is_err() {
                        continue 'form;
                    }
                }
            }
            if p.state()? != whole.state()? || p.state()? != each.state()? {
                continue 'form;
            }
            // What the states do not show has to be equal too: a placed hasher
            // goes on exactly as one that took in the chunks.
            at += min_next;
            for op in [0, 1, 2 * CHUNK - 1, 2 * CHUNK, 33 * CHUNK] {
                let root = spec::tree(&data[..at + op], 0, &mode);
                let mut right = Vec::new();
                for h in [&mut p, &mut whole] {
                    right.push(h.update(&data[at..at + op], 0).is_ok() && h.verify(&root).is_ok());
                }
                if right[0] != right[1] {
                    continue 'form;
                }
                at += op;
            }
        }
        return Some(form);
    }
    None
}

pub fn counts(all_pairs: bool) -> Vec<u64> {
    let max = (1u64 << 53) - 1;
    let mut v = Vec::new();
    for k in 1..=53u32 {
        for d in -18i64..=18 {
            v.push((1i64 << k).wrapping_add(d) as u64);
        }
        for j in 0..k {
            for d in if all_pairs { -2i64..=2 } else { -1i64..=1 } {
                v.push(((1i64 << k) + (1i64 << j) + d) as u64);
                v.push(((1i64 << k) - (1i64 << j) + d) as u64);
            }
        }
    }
    v.retain(|&n| n >= 2 && n <= max);
    v.sort();
    v.dedup();
    v
}

pub const OPS: [usize; 10] = [1, 64, 2047, 2048, 2049, 4096, 6145, 8 * 2048, 16 * 2048 + 1, 33 * 2048];

/// args: mode chunks form op...
pub fn check<T: Place>(mode_of: fn(u64) -> Mode, a: &[u64]) -> Res {
    let (m, n) = (a[0], a[1]);
    let form = if a[2] == 0 { Form::LastApart } else { Form::Merged };
    let cv = cvs(n, form);
    let only: Vec<Cv> = cv.iter().map(|c| c.1).collect();
    let mut h = match T::place(m, &only, n) {
        Some(h) => h,
        None => return Ok(()),
    };
    let total: u64 = a[3..].iter().sum();
    if (n as u128 * CHUNK as u128) + total as u128 > u64::MAX as u128 {
        return Ok(());
    }
    let tail = spec::fill(17, total as usize);
    let mode = mode_of(m);
    let mut at = 0usize;
    let verify = |h: &T, at: usize| {
        let root = spec::tree_after(&cv, &tail[..at], &mode).expect("harness: placed subtrees fit the tree");
        h.verify(&root).map_err(|e| format!("{} chunks and {} bytes in: {}", n, at, e))
    };
    if form == Form::LastApart {
        verify(&h, 0)?;
    }
    for &op in &a[3..] {
        h.update(&tail[at..at + op as usize], 0)
            .map_err(|e| format!("update of {} bytes, {} chunks and {} bytes in: {}", op, n, at, e))?;
        at += op as usize;
        verify(&h, at)?;
    }
    Ok(())
}

/// `prefix` goes in front of the case's arguments.
pub fn enumerate<T: Place>(ctx: &Ctx, kind: &str, prefixes: &[Vec<u64>], modes: u64, min_next: usize, check: impl Fn(&[u64]) -> Res + Sync) -> bool {
    let form = match crate::run_caught_value(|| calibrate::<T>(min_next)) {
        Some(Some(f)) => f,
        _ => {
            ctx.note(format!("{}: placed states are not available on this tree (hook missing or another representation): only real inputs were explored", kind));
            return false;
        }
    };
    ctx.info(&format!("{} subtree form", kind), format!("{:?}, equal to real states, and going on as they do, for every chunk count 2..=70", form));
    let ns = counts(!ctx.quick());
    let depth = ctx.q(2, 3);
    ctx.par(ns.len(), |i| {
        let n = ns[i];
        let near = {
            let p = n.next_power_of_two();
            p - n <= 18 || n - p / 2 <= 18
        };
        let (mut count, mut steps) = (0, 0);
        for prefix in prefixes {
            for m in 0..modes {
                if m > 0 && !near {
                    continue;
                }
                let mut stack: Vec<Vec<u64>> = vec![vec![]];
                while let Some(ops) = stack.pop() {
                    let mut args = prefix.clone();
                    args.extend_from_slice(&[m, n, (form == Form::Merged) as u64]);
                    args.extend_from_slice(&ops);
                    if min_next == 0 || !ops.is_empty() {
                        ctx.guard(kind, &args, || check(&args));
                        count += 1;
                        steps += 1 + ops.len() as u64;
                    }
                    let d = if near && m == 0 { depth } else { 1 };
                    if ops.len() < d && !ctx.stopped() {
                        for &o in &OPS {
                            let mut next = ops.clone();
                            next.push(o as u64);
                            stack.push(next);
                        }
                    }
                }
            }
        }
        ctx.cover(count, steps, count);
    });
    ctx.sample(format!("{}: all update sequences of length <= {} over {:?} from {} chunk counts up to 2^53-1", kind, depth, OPS, ns.len()));
    true
}
