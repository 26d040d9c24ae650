//! Hash values: equality, conversion and printing.

use crate::common::*;
use baokeshed::Hash;
use mcx::{spec, Ctx, Res};

fn base(b: u64) -> [u8; 32] {
    let mut x = [0; 32];
    match b {
        0 => {}
        1 => x = [0xff; 32],
        n => x.copy_from_slice(&spec::fill(n, 32)),
    }
    x
}

fn equality(a: &[u8; 32], b: &[u8; 32]) -> Res {
    let want = a[..] == b[..];
    let (ha, hb) = (Hash::from(*a), Hash::from(*b));
    let all = [
        ("hash == hash", ha == hb, want),
        ("hash == hash, swapped", hb == ha, want),
        ("hash != hash", ha != hb, !want),
        ("hash == bytes", ha == *b, want),
        ("hash == bytes, swapped", hb == *a, want),
        ("hash != bytes", ha != *b, !want),
    ];
    for (what, got, want) in all {
        if got != want {
            return Err(format!("{} is {} for {} and {}", what, got, hex(a), hex(b)));
        }
    }
    Ok(())
}

fn forms(a: &[u8; 32]) -> Res {
    let h = Hash::from(*a);
    let back: [u8; 32] = h.into();
    eq("into bytes", &back, a)?;
    eq("as_bytes", h.as_bytes(), a)?;
    let copy = h.clone();
    eq("clone", copy.as_bytes(), a)?;
    let text = hex(a);
    if &h.to_hex()[..] != &text[..] {
        return Err(format!("to_hex is {} for {}", h.to_hex(), text));
    }
    let dbg = format!("{:?}", h);
    if !dbg.contains(&text) {
        return Err(format!("Debug is {} for {}", dbg, text));
    }
    Ok(())
}

/// forms: base pos value
/// eq: base posA xorA posB xorB
pub fn check(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    let mut x = base(a[0]);
    match kind {
        "forms" => {
            x[a[1] as usize] = a[2] as u8;
            forms(&x)
        }
        "eq" => {
            let mut y = x;
            y[a[1] as usize] ^= a[2] as u8;
            y[a[3] as usize] ^= a[4] as u8;
            equality(&x, &y)
        }
        "many" => {
            // Differences in the positions set in the mask.
            let mut y = x;
            for i in 0..32 {
                if a[1] >> i & 1 == 1 {
                    y[i] ^= a[2] as u8;
                }
            }
            equality(&x, &y)
        }
        _ => panic!("harness: unknown case"),
    }
}

pub fn enumerate(ctx: &Ctx) {
    for b in 0..6 {
        let mut n = 0;
        for pos in 0..32 {
            for v in 0..256 {
                ctx.case("forms", &[b, pos, v]);
                ctx.case("eq", &[b, pos, v, 0, 0]);
                n += 2;
            }
        }
        ctx.cover(n, 6 * n, n);
    }
    // Every pair of byte differences.
    for b in ctx.q(vec![0, 2], vec![0, 1, 2, 3, 4]) {
        ctx.par(32 * 32, |i| {
            let (p, q) = (i / 32, i % 32);
            if p >= q {
                return;
            }
            let x = base(b);
            let mut n = 0;
            for u in 1..256u64 {
                // One case per first difference, to keep the bookkeeping small.
                ctx.guard("eq", &[b, p as u64, u, q as u64, 1], || {
                    for v in 1..256u64 {
                        let mut y = x;
                        y[p] ^= u as u8;
                        y[q] ^= v as u8;
                        equality(&x, &y).map_err(|e| format!("{} (second difference {:#x})", e, v))?;
                    }
                    Ok(())
                });
                n += 255;
            }
            ctx.cover(n, 6 * n, n);
        });
    }
    // Every set of up to four differing positions, and every run of positions.
    let mut masks: Vec<u64> = Vec::new();
    for m in 0..32u64 {
        for k in m..32 {
            masks.push((1u64 << (k + 1)) - (1u64 << m));
            for l in k..32 {
                for j in l..32 {
                    masks.push(1 << m | 1 << k | 1 << l | 1 << j);
                }
            }
        }
    }
    ctx.par((masks.len() + 255) / 256, |i| {
        let mut n = 0;
        for m in &masks[i * 256..std::cmp::min(masks.len(), i * 256 + 256)] {
            for v in [1u64, 0x80, 0x40, 0xff, 0x55] {
                for b in 0..3 {
                    ctx.case("many", &[b, *m, v]);
                    n += 1;
                }
            }
        }
        ctx.cover(n, 6 * n, n);
    });
    ctx.sample("every byte value at every position; every pair of byte differences at every pair of positions; every set of up to four differing positions and every run");
}
