//! Domain separation: distinct (mode, key, message) triples have distinct
//! outputs, and messages that imitate tree nodes do not collide with them.

use crate::common::*;
use mcx::spec::{self, chunk_node, left_chunks, parent_node, Cv};
use mcx::{Ctx, Res};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

const FILLS: u64 = 3;

fn message(ctx: &Ctx, fill: u64, len: usize) -> Vec<u8> {
    content(ctx.seed, fill, len)
}

/// The digest by three routes; they must agree before it is compared with
/// other triples.
fn digest(m: u64, msg: &[u8], root: Option<&spec::Node>) -> Result<[u8; 64], String> {
    let one = one_shot(m, msg);
    let out = one_shot_xof(m, msg).read();
    let mut block = [0; 64];
    block.copy_from_slice(&out[..]);
    let mut h = hasher(m);
    h.update(msg);
    let inc = *h.finalize().as_bytes();
    let mut h = hasher(m);
    let cut = msg.len() - msg.len() / 3;
    h.update(&msg[..cut]);
    h.update(&msg[cut..]);
    let split = *h.finalize().as_bytes();
    if let Some(root) = root {
        let want = root.out(0);
        eq("one-shot digest carries other flags than its domain's", &one, &want[..32])?;
        eq("one-shot output carries other flags than its domain's", &block, &want)?;
        eq("incremental digest carries other flags than its domain's", &inc, &want[..32])?;
        eq("split digest carries other flags than its domain's", &split, &want[..32])?;
    }
    Ok(block)
}

/// pair: backend  mode fill len  mode fill len    the two must differ
/// one:  backend mode fill len                    flags as specified
/// node: backend mode chunks lastlen lo hi        imitation of the node over chunks [lo, hi)
/// first: backend mode chunks                     digest of a prefix is not its chaining value
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    force(a[0]);
    match kind {
        "one" => {
            let d = message(ctx, a[2], a[3] as usize);
            digest(a[1], &d, Some(&spec::tree(&d, 0, &mode(a[1])))).map(|_| ())
        }
        "pair" => {
            let d1 = message(ctx, a[2], a[3] as usize);
            let d2 = message(ctx, a[5], a[6] as usize);
            let x = digest(a[1], &d1, None)?;
            let y = digest(a[4], &d2, None)?;
            if x[..32] == y[..32] {
                return Err(format!(
                    "{} of {} bytes and {} of {} bytes have the same digest {}",
                    mode_name(a[1]), d1.len(), mode_name(a[4]), d2.len(), hex(&x[..32])
                ));
            }
            Ok(())
        }
        "node" => imitate(ctx, a[1], a[2], a[3], a[4], a[5]),
        "first" => prefix(ctx, a[1], a[2]),
        _ => panic!("harness: unknown case"),
    }
}

fn sub(data: &[u8], lo: u64, hi: u64, md: &spec::Mode) -> spec::Node {
    let b = lo as usize * CHUNK;
    let e = std::cmp::min(data.len(), hi as usize * CHUNK);
    spec::tree(&data[b..e], b as u64, md)
}

fn imitate(ctx: &Ctx, m: u64, chunks: u64, last: u64, lo: u64, hi: u64) -> Res {
    let md = mode(m);
    let data = message(ctx, 0, (chunks as usize - 1) * CHUNK + last as usize);
    let node = sub(&data, lo, hi, &md);
    let node_chain = spec::cv_bytes(&node.chain());
    let node_root = node.hash();
    // What the node's compression absorbs, spelled out as a message, and the
    // node's own value spelled out as a message.
    let mut spellings: Vec<(&str, Vec<u8>)> = vec![("its chaining value", node_chain.to_vec()), ("its digest as root", node_root.to_vec())];
    if hi - lo >= 2 {
        spellings.push(("its two children", node.block.to_vec()));
        let mut padded = node.block.to_vec();
        padded.extend_from_slice(&[0; 64]);
        spellings.push(("its two children and zeros", padded));
    } else {
        spellings.push(("its last block", node.block[..node.len as usize].to_vec()));
        spellings.push(("its last block, padded", node.block.to_vec()));
    }
    for (what, s) in &spellings {
        for other in [m, 0] {
            let d = digest(other, s, Some(&spec::tree(s, 0, &mode(other))))?;
            // (A chunk moved to the front of a message of its own is that message.)
            let as_root = hi - lo >= 2 && d[..32] == node_root;
            if d[..32] == node_chain || as_root || d[32..] == node_chain {
                {
                    return Err(format!("{} of the node over chunks {}..{} spelled out as {} gives that node's value", mode_name(other), lo, hi, what));
                }
            }
        }
    }
    // The real message: its digest is not the chaining value of any node.
    if lo == 0 && hi == chunks {
        let d = digest(m, &data, Some(&node))?;
        if d[..32] == node_chain || d[32..] == node_chain {
            return Err("the digest is the root node's chaining value: no root marker".into());
        }
    }
    Ok(())
}

/// The digest of a prefix of whole chunks must not turn up as an intermediate
/// value of the hash of a longer message.
fn prefix(ctx: &Ctx, m: u64, chunks: u64) -> Res {
    let data = message(ctx, 0, (chunks as usize + 1) * CHUNK);
    let n = chunks as usize * CHUNK;
    let d = one_shot(m, &data[..n]);
    #[cfg(baokeshed_verif_state)]
    for extra in [1usize, 64, 2048] {
        let mut h = hasher(m);
        h.update(&data[..n]);
        h.update(&data[n..n + extra]);
        let st = h.verif_state();
        if st.windows(32).any(|w| w == d) {
            return Err(format!("the digest of the first {} chunks is an internal value of the longer message", chunks));
        }
    }
    // Length extension through a parent node.
    let md = mode(m);
    let mut cv: Cv = [0; 8];
    cv.copy_from_slice(&spec::cv_from(&d));
    let right = chunk_node(&data[n..], n as u64, &md).chain();
    let forged = parent_node(&cv, &right, &md).hash();
    if one_shot(m, &data) == forged {
        return Err(format!("the digest of {} chunks extends to the digest of one more", chunks));
    }
    Ok(())
}

fn nodes(lo: u64, hi: u64, out: &mut Vec<(u64, u64)>) {
    out.push((lo, hi));
    if hi - lo > 1 {
        let l = left_chunks(hi - lo);
        nodes(lo, lo + l, out);
        nodes(lo + l, hi, out);
    }
}

pub fn enumerate(ctx: &Ctx) {
    note_platforms(ctx);
    let plats = platforms();

    // Pairwise distinctness: every digest of the space goes into one table.
    let dense = ctx.q(3 * CHUNK + 70, 9 * CHUNK + 70);
    let mut space: Vec<(u64, u64, u64)> = Vec::new();
    for m in 0..(2 * KEYS as u64 + 1) {
        for fill in 0..FILLS {
            let dense = if m < 3 { dense } else { 2 * CHUNK + 70 };
            for l in 0..=dense {
                // The empty message is the same for every fill.
                if l > 0 || fill == 0 {
                    space.push((m, fill, l as u64));
                }
            }
            for n in 3..ctx.q(300u64, 1200) {
                // All fills and modes for the smaller ones, in turn for the others.
                let turn = (n + m + fill) % 4 == 0 || n < 70;
                if n as usize * CHUNK > dense && turn {
                    for d in [-1i64, 0, 1] {
                        space.push((m, fill, (n as i64 * CHUNK as i64 + d) as u64));
                    }
                }
            }
            if fill == 0 && m < 5 {
                for k in ctx.q(8, 10)..=ctx.q(12, 14) {
                    for c in [-1i64, 0, 1] {
                        for d in [-1i64, 1] {
                            space.push((m, fill, (((1i64 << k) + c) * CHUNK as i64 + d) as u64));
                        }
                    }
                }
            }
        }
    }
    for m in 2 * KEYS as u64 + 1..2 * (4 + 256) + 1 {
        for l in [0u64, 1, 64, 65, 2048, 2049, 3 * 2048, 17 * 2048] {
            for fill in 0..2 {
                if l > 0 || fill == 0 {
                    space.push((m, fill, l));
                }
            }
        }
    }
    // The same triple may be listed twice; the longest go first.
    space.sort_by_key(|&(m, f, l)| (std::cmp::Reverse(l), m, f));
    space.dedup();
    let max = (ctx.q(1 << 12, 1 << 14) + 2) * CHUNK;
    let fills: Vec<Vec<u8>> = (0..FILLS).map(|f| message(ctx, f, max)).collect();
    let nm = 2 * KEYS as u64 + 1;
    let memos: Vec<OnceLock<spec::Memo>> = (0..nm * FILLS).map(|_| OnceLock::new()).collect();
    for &p in &plats {
        let table: Vec<Mutex<HashMap<[u8; 32], u32>>> = (0..256).map(|_| Mutex::new(HashMap::new())).collect();
        let step = 64;
        ctx.par((space.len() + step - 1) / step, |i| {
            force(p);
            let mut n = 0;
            for k in i * step..std::cmp::min(space.len(), (i + 1) * step) {
                let (m, f, l) = space[k];
                let mut d = None;
                ctx.guard("one", &[p, m, f, l], || {
                    let msg = &fills[f as usize][..l as usize];
                    let root = if m < nm {
                        let all = if f == 0 && m < 5 { max } else { 1201 * CHUNK };
                        memos[(m * FILLS + f) as usize].get_or_init(|| memo_for(&fills[f as usize][..all], m)).root(l as usize)
                    } else {
                        spec::tree(msg, 0, &mode(m))
                    };
                    d = Some(digest(m, msg, Some(&root))?);
                    Ok(())
                });
                let Some(d) = d else { continue };
                n += 1;
                for half in 0..2 {
                    let mut key = [0; 32];
                    key.copy_from_slice(&d[32 * half..32 * half + 32]);
                    let old = table[key[0] as usize].lock().unwrap().insert(key, k as u32);
                    if let Some(old) = old {
                        let (m2, f2, l2) = space[old as usize];
                        ctx.report("pair", &[p, m2, f2, l2, m, f, l], "two triples share a digest or half an output block".into());
                    }
                }
            }
            ctx.cover(n, 4 * n, n);
        });
    }
    ctx.info("pairs_compared", format!("{}", (space.len() as u128) * (space.len() as u128 - 1) / 2));

    let mut jobs = Vec::new();
    for &p in &plats {
        for m in 0..5u64 {
            for chunks in 1..=ctx.q(10u64, 40) {
                for last in [1u64, 64, 2048] {
                    let mut ns = Vec::new();
                    nodes(0, chunks, &mut ns);
                    for (lo, hi) in ns {
                        jobs.push(("node", vec![p, m, chunks, last, lo, hi]));
                    }
                }
                jobs.push(("first", vec![p, m, chunks]));
            }
            for k in 4..=ctx.q(6, 9) {
                for d in [-1i64, 0, 1] {
                    jobs.push(("first", vec![p, m, ((1i64 << k) + d) as u64]));
                }
            }
        }
    }
    ctx.par(jobs.len(), |i| {
        ctx.case(jobs[i].0, &jobs[i].1);
        ctx.cover(1, 8, 1);
    });
    ctx.sample(format!("{} triples per backend: modes x 260 keys x lengths x fills, all digests in one table", space.len()));
    ctx.sample("every node of trees of up to 10 (40) chunks, spelled out as a message four ways, in two modes");
    ctx.note("collision freedom is decided on the enumerated triples only; beyond them it rests on the compression function");
}
