//! Hashing touches only the caller's buffers: inputs and outputs are placed
//! against unmapped pages, inputs are read-only, and stack garbage varies.

use crate::c05::many;
use crate::common::*;
use mcx::guardmem::{paint_stack, Guarded};
use mcx::{spec, Ctx, Res};
use std::cell::RefCell;

const MAX: usize = 140 * 2048;

struct Area {
    /// Read-only, position-dependent.
    input: Guarded,
    /// Writable scratch.
    out: Vec<Guarded>,
    ins: Vec<Guarded>,
}

thread_local! {
    static AREA: RefCell<Option<Area>> = RefCell::new(None);
}

fn with_area<R>(f: impl FnOnce(&Area) -> R) -> R {
    AREA.with(|a| {
        let mut a = a.borrow_mut();
        let area = a.get_or_insert_with(|| {
            let input = Guarded::new(MAX);
            let data = spec::fill(5, input.len());
            input.all().copy_from_slice(&data);
            input.protect(false);
            Area {
                input,
                out: (0..4).map(|_| Guarded::new(4096)).collect(),
                ins: (0..20).map(|_| Guarded::new(12288)).collect(),
            }
        });
        f(area)
    })
}

fn place(g: &Guarded, place: u64, n: usize) -> &mut [u8] {
    match place {
        0 => g.end(n),
        1 => g.start(n),
        // Somewhere inside, at a chosen misalignment.
        k => &mut g.all()[k as usize..k as usize + n],
    }
}

fn one_way(way: u64, m: u64, input: &[u8]) -> [u8; 32] {
    match way {
        0 => one_shot(m, input),
        1 => {
            let mut h = hasher(m);
            h.update(input);
            *h.finalize().as_bytes()
        }
        2 => {
            // Two pieces, the second flush against the end.
            let mut h = hasher(m);
            let cut = input.len() / 2;
            h.update(&input[..cut]).update(&input[cut..]);
            *h.finalize().as_bytes()
        }
        3 => {
            let mut h = hasher(m);
            let cut = std::cmp::min(1, input.len());
            h.update(&input[..cut]).update(&input[cut..]);
            *h.finalize().as_bytes()
        }
        4 => {
            let o = one_shot_xof(m, input).read();
            let mut x = [0; 32];
            x.copy_from_slice(&o[..32]);
            x
        }
        5 => {
            // A copy of the hasher made half way, the original dropped.
            let mut h = hasher(m);
            let cut = input.len() - input.len() / 3;
            h.update(&input[..cut]);
            let mut c = h.clone();
            drop(h);
            c.update(&input[cut..]);
            *c.finalize().as_bytes()
        }
        _ => {
            let mut h = match m {
                0 => reference_impl::Hasher::new(),
                m if m % 2 == 1 => reference_impl::Hasher::new_keyed(&key((m - 1) / 2)),
                m => reference_impl::Hasher::new_derive_key(&key((m - 2) / 2)),
            };
            h.update(input);
            let mut x = [0; 32];
            h.finalize(&mut x);
            x
        }
    }
}
const WAYS: u64 = 7;

fn hash_case(area: &Area, m: u64, way: u64, at: u64, len: usize, paint: u8, want: &[u8; 32]) -> Res {
    let input = place(&area.input, at, len);
    paint_stack(paint);
    let got = one_way(way, m, input);
    eq("digest", &got, want)
}

type Cv = [u32; 8];

unsafe fn cv_at(b: &mut [u8]) -> &mut Cv {
    &mut *(b.as_mut_ptr() as *mut Cv)
}

/// hash: backend mode way place len paint
/// comp: backend fn place flags
/// many: backend blocks inputs place outplace
/// ref: mode len outlen
pub fn check(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    with_area(|area| match kind {
        "hash" => {
            force(a[0]);
            let len = a[4] as usize;
            let want = spec::tree(place(&area.input, a[3], len), 0, &mode(a[1])).hash();
            hash_case(area, a[1], a[2], a[3], len, a[5] as u8, &want)
        }
        "comp" => {
            let block: &mut [u8; 64] = place(&area.ins[0], a[2], 64).try_into().unwrap();
            block.copy_from_slice(&spec::fill(9, 64));
            let cv = unsafe { cv_at(place(&area.out[0], a[2] / 4 * 4, 32)) };
            *cv = spec::IV;
            let want = spec::compress(cv, block, 64, 77, a[3] as u32);
            let before = *block;
            if a[1] == 1 {
                let out = match a[0] {
                    1 => baokeshed::portable::compress_xof(cv, block, 64, 77, a[3] as u8),
                    _ => unsafe { baokeshed::sse41::compress_xof(cv, block, 64, 77, a[3] as u8) },
                };
                eq("compress_xof", &out[..], &spec::xof_bytes(&want))?;
                if *cv != spec::IV {
                    return Err("compress_xof changed its input chaining value".into());
                }
            } else {
                match a[0] {
                    1 => baokeshed::portable::compress(cv, block, 64, 77, a[3] as u8),
                    _ => unsafe { baokeshed::sse41::compress(cv, block, 64, 77, a[3] as u8) },
                }
                eq("compress", &spec::cv_bytes(cv), &spec::cv_bytes(&spec::cv_of(&want)))?;
            }
            if before != *block {
                return Err("the block was modified".into());
            }
            Ok(())
        }
        "many" => {
            let (blocks, n) = (a[1] as usize, a[2] as usize);
            let len = blocks * 64;
            let ptrs: Vec<*const u8> = (0..n)
                .map(|i| {
                    let s = place(&area.ins[i], a[3], len);
                    s.copy_from_slice(&spec::fill(i as u64, len));
                    s.as_ptr()
                })
                .collect();
            let key = unsafe { cv_at(place(&area.out[1], a[3] / 4 * 4, 32)) };
            *key = spec::IV;
            let out = place(&area.out[0], a[4], n * 32);
            out.iter_mut().for_each(|b| *b = 0xa5);
            let k: &Cv = key;
            paint_stack(a[2] as u8 ^ 0xff);
            match a[0] {
                1 => many!(ptrs, blocks, 64, [1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128, 256, 512, 1024], |ins| {
                    baokeshed::portable::hash_many(&ins, k, 2048, 2048, 0, 1, 2, out)
                }),
                2 => many!(ptrs, blocks, 64, [1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128, 256, 512, 1024], |ins| unsafe {
                    baokeshed::sse41::hash_many(&ins, k, 2048, 2048, 0, 1, 2, out)
                }),
                _ => many!(ptrs, blocks, 64, [1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128, 256, 512, 1024], |ins| unsafe {
                    baokeshed::avx2::hash_many(&ins, k, 2048, 2048, 0, 1, 2, out)
                }),
            }
            for i in 0..n {
                let input = spec::fill(i as u64, len);
                if place(&area.ins[i], a[3], len) != &input[..] {
                    return Err(format!("input {} was modified", i));
                }
                let want = spec::many1(&input, &spec::IV, 2048 * (i as u64 + 1), 0, 1, 2);
                eq(&format!("output {}", i), &out[32 * i..32 * i + 32], &want)?;
            }
            Ok(())
        }
        "ref" => {
            let data = area.input.end(a[1] as usize);
            let n = a[2] as usize;
            let mut h = reference_impl::Hasher::new();
            h.update(data);
            let root = spec::tree(data, 0, &mode(0));
            for at in 0..2 {
                let out = place(&area.out[0], at, n);
                out.iter_mut().for_each(|b| *b = 0xa5);
                h.finalize(out);
                eq("reference output", out, &root.out_bytes(n))?;
            }
            // Untouched around the slice.
            let all = &mut area.out[0].all()[..n + 128];
            all.iter_mut().for_each(|b| *b = 0xa5);
            h.finalize(&mut all[64..64 + n]);
            if all[..64].iter().chain(&all[64 + n..]).any(|&b| b != 0xa5) {
                return Err(format!("the reference implementation wrote outside its {} byte output", n));
            }
            Ok(())
        }
        _ => panic!("harness: unknown case"),
    })
}

pub fn enumerate(ctx: &Ctx) {
    note_platforms(ctx);
    let plats = platforms();
    let dense = ctx.q(4 * 2048 + 130, 20 * 2048);
    let mut lens: Vec<usize> = (0..=dense).collect();
    for n in dense / 2048..ctx.q(40, 130) {
        for d in [-64i64, -1, 0, 1, 63, 64] {
            lens.push((n as i64 * 2048 + d) as usize);
        }
    }
    lens.sort();
    lens.dedup();
    ctx.par_procs((lens.len() + 31) / 32, |i| {
        with_area(|area| {
            let mut n = 0;
            let mut points = 0;
            for &len in &lens[i * 32..std::cmp::min(lens.len(), i * 32 + 32)] {
                for at in [0u64, 1, 3] {
                    let m = (len as u64 + at) % 3;
                    let want = spec::tree(place(&area.input, at, len), 0, &mode(m)).hash();
                    points += 1;
                    for &p in &plats {
                        force(p);
                        for way in 0..WAYS {
                            if way == 6 && p != plats[0] {
                                continue;
                            }
                            let paint = if (len + way as usize) % 2 == 0 { 0xff } else { 0x5a };
                            ctx.guard("hash", &[p, m, way, at, len as u64, paint as u64], || {
                                hash_case(area, m, way, at, len, paint, &want)
                            });
                            n += 1;
                        }
                    }
                }
            }
            ctx.cover(points, n, n);
        });
    });
    let mut jobs: Vec<(&str, Vec<u64>)> = Vec::new();
    let detected: Vec<u64> = {
        let mut v = vec![1];
        if is_x86_feature_detected!("sse4.1") {
            v.push(2);
        }
        if is_x86_feature_detected!("avx2") {
            v.push(3);
        }
        v
    };
    for &b in &detected {
        for x in 0..2 {
            for place in 0..68 {
                if b < 3 {
                    for f in [0, 11] {
                        jobs.push(("comp", vec![b, x, place, f]));
                    }
                }
            }
        }
        for blocks in crate::c05::BLOCKS.into_iter().filter(|&b| b <= 128) {
            for n in 0..=20 {
                for at in [0, 1, 3, 64] {
                    for out in [0, 1, 5] {
                        jobs.push(("many", vec![b, blocks as u64, n, at, out]));
                    }
                }
            }
        }
    }
    for len in [0, 1, 64, 2048, 2049, 5000] {
        for out in 0..=200 {
            jobs.push(("ref", vec![0, len, out]));
        }
    }
    ctx.par_procs((jobs.len() + 31) / 32, |i| {
        let mut n = 0;
        for (k, a) in &jobs[i * 32..std::cmp::min(jobs.len(), i * 32 + 32)] {
            ctx.case(k, a);
            n += 1;
        }
        ctx.cover(n, n, n);
    });
    ctx.sample(format!("every input length up to {} and around chunk boundaries beyond, flush against an unmapped page at the end, at the start, and misaligned, over {} routes and every backend; the input is mapped read-only", dense, WAYS));
    ctx.sample("every kernel with every buffer against an unmapped page: 0..=20 inputs x 11 block counts x 4 placements x 3 output placements");
    ctx.note("a read of the page holding the input but outside the input is only visible when it crosses into the unmapped pages; both ends are covered in turn");
}
