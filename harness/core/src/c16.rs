//! Executed-instruction traces do not depend on secrets.

use crate::common::*;
use mcx::trace::{trace, Steps};
use mcx::{spec, Ctx, Res};

#[inline(never)]
fn eq_hash(a: &baokeshed::Hash, b: &baokeshed::Hash) -> bool {
    a == b
}
#[inline(never)]
fn eq_bytes(a: &baokeshed::Hash, b: &[u8; 32]) -> bool {
    a == b
}

fn base(b: u64) -> [u8; 32] {
    match b {
        0 => [0; 32],
        1 => [0xff; 32],
        n => {
            let mut x = [0; 32];
            x.copy_from_slice(&spec::fill(n, 32));
            x
        }
    }
}

thread_local! {
    /// What is compared, always at the same addresses.
    static PAIR: std::cell::UnsafeCell<(baokeshed::Hash, baokeshed::Hash, [u8; 32])> =
        std::cell::UnsafeCell::new(([0; 32].into(), [0; 32].into(), [0; 32]));
}

fn compare_trace(a: &[u8; 32], b: &[u8; 32], with_bytes: bool) -> Steps {
    let pair = PAIR.with(|p| unsafe { &mut *p.get() });
    *pair = ((*a).into(), (*b).into(), *b);
    let pair = &*pair;
    if with_bytes {
        trace(move || eq_bytes(&pair.0, &pair.2)).1
    } else {
        trace(move || eq_hash(&pair.0, &pair.1)).1
    }
}

// What is hashed: route 0 one-shot, 1 hasher in pieces, 2 extended output,
// 3 the reference implementation, 4 the 64-bit variant's kernels.
#[inline(never)]
fn hash_run(route: u64, m: u64, key: &[u8; 32], data: &[u8]) {
        let out = match (route, m) {
            (0, 0) => *baokeshed::hash(data).as_bytes(),
            (0, 1) => *baokeshed::keyed_hash(key, data).as_bytes(),
            (0, _) => baokeshed::derive_key(key, data),
            (3, _) => {
                let mut h = match m {
                    0 => reference_impl::Hasher::new(),
                    1 => reference_impl::Hasher::new_keyed(key),
                    _ => reference_impl::Hasher::new_derive_key(key),
                };
                let cut = data.len() / 3;
                h.update(&data[..cut]);
                h.update(&data[cut..]);
                let mut x = [0; 100];
                h.finalize(&mut x);
                std::hint::black_box(&x);
                [0; 32]
            }
            (4, _) => wide_words(m, key, data),
            (r, m) => {
                let mut h = match m {
                    0 => baokeshed::Hasher::new(),
                    1 => baokeshed::Hasher::new_keyed(key),
                    _ => baokeshed::Hasher::new_derive_key(key),
                };
                let cut = data.len() / 3;
                h.update(&data[..cut]);
                h.update(&data[cut..]);
                if r == 1 {
                    *h.finalize().as_bytes()
                } else {
                    let mut o = h.finalize_xof();
                    o.read();
                    let b = o.read();
                    let mut x = [0; 32];
                    x.copy_from_slice(&b[..32]);
                    x
                }
            }
        };
        std::hint::black_box(out);
}

fn wide_words(m: u64, key: &[u8; 32], data: &[u8]) -> [u8; 32] {
    use baokeshed::portable64;
    let mut words = [0; 4];
    for i in 0..4 {
        let mut w = [0; 8];
        w.copy_from_slice(&key[8 * i..8 * i + 8]);
        words[i] = u64::from_le_bytes(w);
    }
    let mut block = [0; 128];
    let n = std::cmp::min(data.len(), 128);
    block[..n].copy_from_slice(&data[..n]);
    let mut cv = words;
    portable64::compress(&mut cv, &block, n as u8, 1 << 33, m as u8);
    std::hint::black_box(portable64::compress_xof(&cv, &block, n as u8, 64, 11));
    let mut out = [0; 8 * 32];
    let mut inputs: [&[u8; 256]; 8] = [&[0; 256]; 8];
    let mut k = 0;
    for c in data.chunks_exact(256).take(8) {
        let p = c.as_ptr() as *const [u8; 256];
        inputs[k] = unsafe { &*p };
        k += 1;
    }
    portable64::hash_many(&inputs[..k], &words, 1 << 33, 2048, m as u8, 1, 2, &mut out);
    std::hint::black_box(&out);
    [0; 32]
}

fn secrets(variant: u64, len: usize, slot: usize) -> ([u8; 32], Vec<u8>) {
    let mut key = [0u8; 32];
    // The buffer is always the same allocation shape, so addresses do not vary.
    let mut data = vec![0u8; len];
    match variant {
        0 => {}
        1 => {
            key = [0xff; 32];
            data = vec![0xff; len];
        }
        2 => {
            key.copy_from_slice(&spec::fill(3, 32));
            data = spec::fill(4, len);
        }
        3 => {
            key[slot % 32] = 1;
        }
        _ => {
            if len > 0 {
                data[slot % len] = 0x80;
            }
        }
    }
    (key, data)
}

// One traced hash, after an untraced one (lazy initialisation is not on
// trial). The same buffers at the same addresses for every secret.
fn hash_case(a: &[u64], variant: u64, slot: usize) -> Steps {
    force(a[0]);
    let (route, m, len) = (a[1], a[2], a[3] as usize);
    let (k, d) = secrets(variant, len, slot);
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        b[..32].copy_from_slice(&k);
        b[64..64 + len].copy_from_slice(&d);
        let key = unsafe { &*(b.as_ptr() as *const [u8; 32]) };
        let data = &b[64..64 + len];
        hash_run(route, m, key, data);
        trace(move || hash_run(route, m, key, data)).1
    })
}

thread_local! {
    static BUF: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![0; 1 << 16]);
}

fn hash_verdict(len: u64, want: Steps, got: Steps) -> Res {
    if let Some(e) = want.differs(&got) {
        return Err(format!("hashing {} bytes {}", len, e));
    }
    if want.count < 100 {
        return Err("harness: nothing was traced".into());
    }
    Ok(())
}

/// cmp: withbytes base pos xor         against the trace of comparing equal values
/// hash: backend route mode len variant slot   against the trace of the zero secret
/// debug: backend mode len what variant
pub fn check(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    match kind {
        "cmp" => {
            let x = base(a[1]);
            let mut y = x;
            y[a[2] as usize] ^= a[3] as u8;
            let zero = [0u8; 32];
            compare_trace(&zero, &zero, a[0] == 1);
            let want = compare_trace(&zero, &zero, a[0] == 1);
            let got = compare_trace(&x, &y, a[0] == 1);
            if let Some(e) = want.differs(&got) {
                return Err(format!("comparing equal values and comparing {} with {} {}", hex(&x), hex(&y), e));
            }
            if want.count < 10 {
                return Err("harness: nothing was traced".into());
            }
            Ok(())
        }
        "hash" => {
            let want = hash_case(a, 0, 0);
            let got = hash_case(a, a[4], a[5] as usize);
            hash_verdict(a[3], want, got)
        }
        "debug" => {
            force(a[0]);
            let (k, d) = secrets(2, a[2] as usize, 0);
            let mut h = match a[1] {
                0 => baokeshed::Hasher::new(),
                1 => baokeshed::Hasher::new_keyed(&k),
                _ => baokeshed::Hasher::new_derive_key(&k),
            };
            h.update(&d);
            let (_, zero) = (k, 0u8);
            let mut h0 = match a[1] {
                0 => baokeshed::Hasher::new(),
                1 => baokeshed::Hasher::new_keyed(&[zero; 32]),
                _ => baokeshed::Hasher::new_derive_key(&[zero; 32]),
            };
            h0.update(&vec![0; a[2] as usize]);
            let fresh = baokeshed::Hasher::new();
            let (o, o0, of) = (h.finalize_xof(), h0.finalize_xof(), fresh.finalize_xof());
            for alt in [false, true] {
                let f = |h: &baokeshed::Hasher| if alt { format!("{:#?}", h) } else { format!("{:?}", h) };
                let g = |h: &baokeshed::Output| if alt { format!("{:#?}", h) } else { format!("{:?}", h) };
                if f(&h) != f(&h0) || f(&h) != f(&fresh) {
                    return Err(format!("Debug of a hasher depends on its state: {} / {} / {}", f(&h), f(&h0), f(&fresh)));
                }
                let mut later = o.clone();
                later.read();
                if g(&o) != g(&o0) || g(&o) != g(&of) || g(&o) != g(&later) {
                    return Err(format!("Debug of an output depends on its state: {} / {}", g(&o), g(&o0)));
                }
            }
            Ok(())
        }
        _ => panic!("harness: unknown case"),
    }
}

pub fn enumerate(ctx: &Ctx) {
    note_platforms(ctx);
    // Comparison: every position, every single-bit difference and more.
    let diffs: Vec<u64> = ctx.q(vec![0, 1, 0x80, 0xff, 0x10], (0..256).collect());
    ctx.par_procs(32, |pos| {
        let mut n = 0;
        for wb in 0..2 {
            for b in 0..3 {
                for &d in &diffs {
                    ctx.case("cmp", &[wb, b, pos as u64, d]);
                    n += 1;
                }
            }
        }
        ctx.cover(n, 2 * n, n);
    });
    let mut jobs: Vec<(u64, u64, u64, u64, Vec<(u64, u64)>)> = Vec::new();
    for p in platforms() {
        for m in 0..3u64 {
            for route in 0..5u64 {
                if route > 2 && p > 1 {
                    continue;
                }
                for len in [0u64, 1, 63, 64, 65, 192, 2048, 2049, 4097, 10 * 2048 + 7] {
                    let mut vs = vec![(1, 0), (2, 0)];
                    let step = match len {
                        0..=192 => ctx.q(4, 1),
                        193..=2049 => ctx.q(16, 4),
                        4097 => ctx.q(32, 8),
                        _ => ctx.q(32, 16),
                    };
                    if len > 4097 && (ctx.quick() && (p == 1 || m != 1)) {
                        continue;
                    }
                    for s in (0..32).step_by(step) {
                        vs.push((3, s));
                        vs.push((4, s * len / 32));
                    }
                    vs.push((4, len.saturating_sub(1)));
                    jobs.push((p, route, m, len, vs));
                }
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.3));
    ctx.par_procs(jobs.len(), |i| {
        let (p, r, m, l, vs) = &jobs[i];
        let head = [*p, *r, *m, *l];
        let want = hash_case(&head, 0, 0);
        let mut instructions = want.count;
        for (v, s) in vs {
            let args = [*p, *r, *m, *l, *v, *s];
            ctx.guard("hash", &args, || {
                let got = hash_case(&head, *v, *s as usize);
                instructions += got.count;
                hash_verdict(*l, want, got)
            });
        }
        ctx.cover(vs.len() as u64 + 1, instructions, vs.len() as u64 + 1);
    });
    for p in platforms() {
        for m in 0..3 {
            for l in [0u64, 1, 64, 2048, 2049, 9 * 2048 + 3] {
                ctx.case("debug", &[p, m, l]);
                ctx.cover(1, 8, 1);
            }
        }
    }
    ctx.sample("comparison traces: every position x differences x bases, with hashes and byte arrays; hashing traces: lengths 0..10 chunks x secrets x 3 modes x (3 routes x backends, reference implementation, 64-bit kernels)");
    ctx.note("a trace is the sequence of executed instruction addresses and of the addresses of their memory operands, observed by single-stepping the optimised build; data-dependent latency of single instructions is outside the model");
}
