//! The C code touches only the caller's buffers: every buffer against unmapped
//! pages, inputs read-only, array bounds monitored.

use crate::c11::{self, libs, mode};
use crate::clib::{self, ckernels, deltas, CKernel, BOUNDS, F};
use mcx::guardmem::{paint_stack, Guarded};
use mcx::{spec, Ctx, Res};
use std::cell::RefCell;

const MAX: usize = 140 * 2048;

struct Area {
    input: Guarded,
    hasher: Guarded,
    out: Guarded,
    key: Guarded,
    deltas: Guarded,
    ptrs: Guarded,
    ins: Vec<Guarded>,
}

thread_local! {
    static AREA: RefCell<Option<Area>> = RefCell::new(None);
}

fn with_area<R>(f: impl FnOnce(&Area) -> R) -> R {
    AREA.with(|a| {
        let mut a = a.borrow_mut();
        let area = a.get_or_insert_with(|| {
            let input = Guarded::new(MAX);
            let data = spec::fill(5, input.len());
            input.all().copy_from_slice(&data);
            input.protect(false);
            Area {
                input,
                hasher: Guarded::new(4096),
                out: Guarded::new(4096),
                key: Guarded::new(4096),
                deltas: Guarded::new(4096),
                ptrs: Guarded::new(4096),
                ins: (0..34).map(|_| Guarded::new(12288)).collect(),
            }
        });
        f(area)
    })
}

fn place(g: &Guarded, place: u64, n: usize) -> &mut [u8] {
    match place {
        0 => g.end(n),
        1 => g.start(n),
        k => &mut g.all()[k as usize..k as usize + n],
    }
}

const WAYS: u64 = 5;

fn hash_case(area: &Area, lib: u64, m: u64, way: u64, at: u64, len: usize, want: &[u8; 32]) -> Res {
    let lib = clib::lib(lib).unwrap();
    let input = place(&area.input, at, len);
    let size = lib.size.unwrap_or(2048 + 256);
    // An object of the C compiler's own size, against the unmapped page.
    let h = place(&area.hasher, at % 2, size);
    let key = place(&area.key, at, 32);
    key.copy_from_slice(&c11::key(m));
    let mut outs = [[0u8; 32]; 2];
    for paint in 0..2 {
        area.hasher.all().iter_mut().for_each(|b| *b = [0x00, 0xff][paint]);
        paint_stack([0x5a, 0xff][paint]);
        let p = h.as_mut_ptr();
        lib.init(p, key.as_ptr(), c11::flags(m));
        let cuts: Vec<usize> = match way {
            0 => vec![],
            1 => vec![len / 2],
            2 => vec![std::cmp::min(1, len)],
            3 => vec![len - len / 3],
            _ => vec![std::cmp::min(len, 2048), std::cmp::min(len, 2048), len],
        };
        let mut pos = 0;
        for c in cuts {
            lib.update(p, input[pos..].as_ptr(), c - pos);
            pos = c;
        }
        lib.update(p, input[pos..].as_ptr(), len - pos);
        let out = place(&area.out, at, 32);
        area.out.all().iter_mut().for_each(|b| *b = 0xa5);
        lib.finalize(p, out.as_mut_ptr());
        outs[paint].copy_from_slice(out);
        let all = area.out.all();
        let start = out.as_ptr() as usize - all.as_ptr() as usize;
        if all[..start].iter().chain(&all[start + 32..]).any(|&b| b != 0xa5) {
            return Err(format!("{}: hasher_finalize wrote outside its output", lib.name));
        }
        // Outside the object, the page it lies in is untouched.
        let all = area.hasher.all();
        let start = p as usize - all.as_ptr() as usize;
        if all[..start].iter().chain(&all[start + size..]).any(|&b| b != [0x00, 0xff][paint]) {
            return Err(format!("{}: wrote outside the hasher object", lib.name));
        }
    }
    for o in &outs {
        if o != want {
            return Err(format!("{}: {} bytes, way {}: got {} want {}", lib.name, len, way, spec::hex(o), spec::hex(want)));
        }
    }
    if key[..] != c11::key(m) {
        return Err(format!("{}: the key was modified", lib.name));
    }
    Ok(())
}

fn want_many(k: &CKernel, input: &[u8], pos: u64) -> [u8; 32] {
    let key = spec::cv_bytes(&spec::IV);
    if k.w64 {
        let mut w = [0u64; 4];
        for i in 0..4 {
            w[i] = u64::from_le_bytes(key[8 * i..8 * i + 8].try_into().unwrap());
        }
        spec::many1_64(input, &w, pos, 0, 1, 2)
    } else {
        spec::many1(input, &spec::IV, pos, 0, 1, 2)
    }
}

/// many: tool kernel blocks inputs place outplace
/// comp: tool kernel place flags
/// hash: library mode way place len
pub fn check(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    with_area(|area| match kind {
        "hash" => {
            let len = a[4] as usize;
            if clib::lib(a[0]).is_none() {
                return Ok(());
            }
            let want = spec::tree(place(&area.input, a[3], len), 0, &mode(a[1])).hash();
            hash_case(area, a[0], a[1], a[2], a[3], len, &want)
        }
        "comp" => {
            let k = match &ckernels(a[0] as usize)[a[1] as usize] {
                Some(k) => k,
                None => return Ok(()),
            };
            let f = match k.f {
                F::Compress(f) => f,
                _ => panic!("harness: not a compression function of this process"),
            };
            let n = if k.w64 { 128 } else { 64 };
            let block = place(&area.ins[0], a[2], n);
            block.copy_from_slice(&spec::fill(9, n));
            // Words are aligned.
            let state = place(&area.key, a[2] / 8 * 8, 32);
            if a[2] == 1 {
                return Ok(());
            }
            state.copy_from_slice(&spec::cv_bytes(&spec::IV));
            let (all_before, at) = (area.key.all().to_vec(), state.as_ptr() as usize - area.key.all().as_ptr() as usize);
            f(state.as_mut_ptr(), block.as_ptr(), n as u8, 77, a[3] as u8);
            let want: Vec<u8> = if k.w64 {
                let mut b = [0; 128];
                b.copy_from_slice(&spec::fill(9, n));
                let key = spec::cv_bytes(&spec::IV);
                let mut w = [0u64; 4];
                for i in 0..4 {
                    w[i] = u64::from_le_bytes(key[8 * i..8 * i + 8].try_into().unwrap());
                }
                spec::cv64_of(&spec::compress64(&w, &b, 128, 77, a[3])).iter().flat_map(|w| w.to_le_bytes()).collect()
            } else {
                let mut b = [0; 64];
                b.copy_from_slice(&spec::fill(9, n));
                spec::cv_bytes(&spec::cv_of(&spec::compress(&spec::IV, &b, 64, 77, a[3] as u32))).to_vec()
            };
            if state[..] != want[..] {
                return Err(format!("{}: got {} want {}", k.name, spec::hex(state), spec::hex(&want)));
            }
            if block[..] != spec::fill(9, n)[..] {
                return Err(format!("{}: the block was modified", k.name));
            }
            let all = area.key.all();
            if all[..at] != all_before[..at] || all[at + 32..] != all_before[at + 32..] {
                return Err(format!("{}: wrote outside the chaining value", k.name));
            }
            Ok(())
        }
        "many" => {
            let k = match &ckernels(a[0] as usize)[a[1] as usize] {
                Some(k) => k,
                None => return Ok(()),
            };
            let (blocks, n) = (a[2] as usize, a[3] as usize);
            let len = blocks * if k.w64 { 128 } else { 64 };
            let ptrs = area.ptrs.end(8 * n);
            for i in 0..n {
                let s = place(&area.ins[i], a[4], len);
                s.copy_from_slice(&spec::fill(i as u64, len));
                ptrs[8 * i..8 * i + 8].copy_from_slice(&(s.as_ptr() as usize).to_le_bytes());
            }
            let key = place(&area.key, a[4] & 1, 32);
            key.copy_from_slice(&spec::cv_bytes(&spec::IV));
            let table = place(&area.deltas, a[4] & 1, 136);
            for (i, d) in deltas(2048).iter().enumerate() {
                table[8 * i..8 * i + 8].copy_from_slice(&d.to_le_bytes());
            }
            let ptrs_before = ptrs.to_vec();
            let (key_before, table_before) = (key.to_vec(), table.to_vec());
            area.out.all().iter_mut().for_each(|b| *b = 0xa5);
            let out = place(&area.out, a[5], n * 32);
            paint_stack(n as u8 ^ 0xff);
            let p = ptrs.as_ptr() as *const *const u8;
            let d = table.as_ptr() as *const u64;
            match k.f {
                F::Many(f) => f(p, n, blocks, key.as_ptr(), 2048, d, 0, 1, 2, out.as_mut_ptr()),
                F::Exact(f, e) => {
                    assert_eq!(e, n);
                    f(p, blocks, key.as_ptr(), 2048, d, 0, 1, 2, out.as_mut_ptr())
                }
                F::Compress(_) | F::There(..) => panic!("harness: not a hashing function of this process"),
            }
            for i in 0..n {
                let input = spec::fill(i as u64, len);
                if place(&area.ins[i], a[4], len) != &input[..] {
                    return Err(format!("{}: input {} was modified", k.name, i));
                }
                let want = want_many(k, &input, 2048 * (i as u64 + 1));
                if out[32 * i..32 * i + 32] != want {
                    return Err(format!("{}: output {}: got {} want {}", k.name, i, spec::hex(&out[32 * i..32 * i + 32]), spec::hex(&want)));
                }
            }
            let all = area.out.all();
            let at = out.as_ptr() as usize - all.as_ptr() as usize;
            if all[..at].iter().chain(&all[at + 32 * n..]).any(|&b| b != 0xa5) {
                return Err(format!("{}: wrote outside its {} outputs", k.name, n));
            }
            if ptrs[..] != ptrs_before[..] || key[..] != key_before[..] || table[..] != table_before[..] {
                return Err(format!("{}: modified its pointers, key or offset table", k.name));
            }
            Ok(())
        }
        _ => panic!("harness: unknown case"),
    })
}

pub fn enumerate(ctx: &Ctx) {
    let mut tools = clib::tools(ctx);
    tools.push(BOUNDS);
    // The probed ones know the size of the C object.
    let mut ls = libs(&tools[..1], true);
    ls.extend(libs(&[BOUNDS], true));
    if ls.is_empty() {
        ls = libs(&[tools[0], BOUNDS], false);
        ctx.note("the C object's size is unknown on this tree (the probe does not compile)");
    }
    std::thread::scope(|s| {
        for &t in &tools {
            s.spawn(move || clib::ckernels(t));
        }
    });
    ctx.info("builds", ls.iter().map(|&n| clib::lib(n).unwrap().name.clone()).collect::<Vec<_>>().join("; "));
    let dense = ctx.q(2 * 2048 + 130, 10 * 2048);
    let mut lens: Vec<usize> = (0..=dense).collect();
    for n in dense / 2048..ctx.q(40, 130) {
        for d in [-64i64, -1, 0, 1, 63, 64] {
            lens.push((n as i64 * 2048 + d) as usize);
        }
    }
    lens.sort();
    lens.dedup();
    ctx.par_procs((lens.len() + 31) / 32, |i| {
        with_area(|area| {
            let (mut n, mut points) = (0, 0);
            for &len in &lens[i * 32..std::cmp::min(lens.len(), i * 32 + 32)] {
                for at in [0u64, 1, 3] {
                    let m = (len as u64 + at) % 3;
                    let want = spec::tree(place(&area.input, at, len), 0, &mode(m)).hash();
                    points += 1;
                    for &l in &ls {
                        for way in 0..WAYS {
                            if ctx.quick() && way != (len as u64 + l) % WAYS && way > 0 {
                                continue;
                            }
                            ctx.guard("hash", &[l, m, way, at, len as u64], || hash_case(area, l, m, way, at, len, &want));
                            n += 1;
                        }
                    }
                }
            }
            ctx.cover(points, n, n);
        });
    });
    let mut jobs: Vec<(&str, Vec<u64>)> = Vec::new();
    for &t in &tools {
        for (i, k) in ckernels(t).iter().enumerate() {
            let k = match k {
                Some(k) => k,
                None => continue,
            };
            let ns: Vec<u64> = match k.f {
                F::Compress(_) => {
                    for at in 0..68 {
                        for f in [0, 11] {
                            jobs.push(("comp", vec![t as u64, i as u64, at, f]));
                        }
                    }
                    continue;
                }
                F::There(..) => continue,
                F::Many(_) => (0..=34).collect(),
                F::Exact(_, n) => vec![n as u64],
            };
            for blocks in [1u64, 2, 3, 31, 32] {
                for &n in &ns {
                    for at in [0, 1, 3, 64] {
                        for out in [0, 1, 5] {
                            jobs.push(("many", vec![t as u64, i as u64, blocks, n, at, out]));
                        }
                    }
                }
            }
        }
    }
    ctx.par_procs((jobs.len() + 31) / 32, |i| {
        let mut n = 0;
        for (k, a) in &jobs[i * 32..std::cmp::min(jobs.len(), i * 32 + 32)] {
            ctx.case(k, a);
            n += 1;
        }
        ctx.cover(n, n, n);
    });
    ctx.sample(format!("C hasher: every input length up to {} and around chunk boundaries beyond, input, key, output and object against unmapped pages, on {} builds including one with array bounds monitored", dense, ls.len()));
    ctx.sample("C kernels of both word sizes: 0..=34 inputs x 5 block counts x 4 placements x 3 output placements, every buffer against an unmapped page");
}
