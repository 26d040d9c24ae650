//! Enumeration of kernel argument spaces, shared by every backend, language
//! and word size. Chaining values and keys travel as 32 little-endian bytes.

use crate::spec;
use crate::{Ctx, Res};

pub type CompressFn = Box<dyn Fn(&[u8; 32], &[u8], u8, u64, u8) -> Vec<u8> + Sync + Send>;
/// inputs, blocks, key, offset, delta, flags, flags_start, flags_end, out
pub type ManyFn = Box<dyn Fn(&[*const u8], usize, &[u8; 32], u64, u64, [u8; 3], &mut [u8]) + Sync + Send>;

pub struct Kernel {
    pub name: String,
    /// 64-bit words, 128-byte blocks.
    pub w64: bool,
    /// The new chaining value.
    pub compress: Option<CompressFn>,
    /// The extended output block.
    pub xof: Option<CompressFn>,
    pub many: Option<ManyFn>,
    /// Some(n): exactly n inputs per call.
    pub exactly: Option<usize>,
    /// Block counts the interface accepts.
    pub blocks: Vec<usize>,
    /// How many bytes of inputs and outputs a call can be given.
    pub room: usize,
    /// Whether any block count is accepted.
    pub any_blocks: bool,
}

impl Kernel {
    fn block_len(&self) -> usize {
        if self.w64 {
            128
        } else {
            64
        }
    }
}

fn cv64(b: &[u8; 32]) -> spec::Cv64 {
    let mut cv = [0; 4];
    for i in 0..4 {
        let mut w = [0; 8];
        w.copy_from_slice(&b[8 * i..8 * i + 8]);
        cv[i] = u64::from_le_bytes(w);
    }
    cv
}

pub fn spec_compress(w64: bool, xof: bool, cv: &[u8; 32], block: &[u8], len: u8, pos: u64, flags: u8) -> Vec<u8> {
    if w64 {
        let mut b = [0; 128];
        b.copy_from_slice(block);
        let v = spec::compress64(&cv64(cv), &b, len as u64, pos, flags as u64);
        let k = cv64(cv);
        let mut words = spec::cv64_of(&v).to_vec();
        if xof {
            words.extend((0..4).map(|i| v[4 + i] ^ k[i]));
            words.extend(&v[8..]);
        }
        words.iter().flat_map(|w| w.to_le_bytes()).collect()
    } else {
        let mut b = [0; 64];
        b.copy_from_slice(block);
        let v = spec::compress(&spec::cv_from(cv), &b, len as u32, pos, flags as u32);
        let bytes = spec::xof_bytes(&v);
        if xof {
            bytes.to_vec()
        } else {
            bytes[..32].to_vec()
        }
    }
}

pub fn spec_many1(w64: bool, input: &[u8], key: &[u8; 32], pos: u64, f: [u8; 3]) -> [u8; 32] {
    if w64 {
        spec::many1_64(input, &cv64(key), pos, f[0], f[1], f[2])
    } else {
        spec::many1(input, &spec::cv_from(key), pos, f[0], f[1], f[2])
    }
}

fn base(kind: u64, n: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; n],
        1 => vec![0xff; n],
        k => spec::fill(1000 + k, n),
    }
}

fn flip(v: &mut [u8], bit_plus_1: u64) {
    if bit_plus_1 > 0 {
        let b = (bit_plus_1 - 1) as usize;
        v[b / 8] ^= 1 << (b % 8);
    }
}

/// comp: kernel xof len flags offset base bitA bitB    (bits of cv then block, from 1; 0 for none)
/// many: kernel blocks inputs layout offset delta flags flags_start flags_end base bit
pub fn check(ks: &[Kernel], kind: &str, a: &[u64]) -> Res {
    let k = &ks[a[0] as usize];
    match kind {
        "comp" => {
            let n = 32 + k.block_len();
            let mut v = base(a[5], n);
            flip(&mut v, a[6]);
            flip(&mut v, a[7]);
            let mut cv = [0; 32];
            cv.copy_from_slice(&v[..32]);
            let f = if a[1] == 1 { k.xof.as_ref().unwrap() } else { k.compress.as_ref().unwrap() };
            let got = f(&cv, &v[32..], a[2] as u8, a[4], a[3] as u8);
            let want = spec_compress(k.w64, a[1] == 1, &cv, &v[32..], a[2] as u8, a[4], a[3] as u8);
            if got != want {
                return Err(format!(
                    "{} {}: block_len {} flags {:#x} offset {:#x}: got {} want {}",
                    k.name,
                    if a[1] == 1 { "compress_xof" } else { "compress" },
                    a[2], a[3], a[4], spec::hex(&got), spec::hex(&want)
                ));
            }
            Ok(())
        }
        "many" => {
            let (blocks, n, layout, offset, delta) = (a[1] as usize, a[2] as usize, a[3], a[4], a[5]);
            let f = [a[6] as u8, a[7] as u8, a[8] as u8];
            let len = blocks * k.block_len();
            let mut key = [0; 32];
            key.copy_from_slice(&base(a[9], 32));
            let key_bits = 256;
            if a[10] > 0 && a[10] <= key_bits {
                flip(&mut key, a[10]);
            }
            // 0 adjacent, 1 reversed, 2 all the same input, 3 apart and misaligned
            let stride = if layout == 3 { len + 13 } else { len };
            let start = |i: usize| match layout {
                1 => (n - 1 - i) * stride,
                2 => 0,
                3 => 7 + i * stride,
                _ => i * stride,
            };
            let mut buf = base(a[9], n * stride + 64);
            if a[10] > key_bits {
                flip(&mut buf, a[10] - key_bits);
            }
            let ptrs: Vec<*const u8> = (0..n).map(|i| buf[start(i)..start(i) + len].as_ptr()).collect();
            let before = buf.clone();
            const PAD: usize = 96;
            let mut out = vec![0xa5u8; n * 32 + 2 * PAD];
            let len_out = n * 32 + if layout == 0 { 0 } else { PAD };
            k.many.as_ref().unwrap()(&ptrs, blocks, &key, offset, delta, f, &mut out[PAD..PAD + len_out]);
            for i in 0..n {
                let pos = offset.wrapping_add((i as u64).wrapping_mul(delta));
                let want = spec_many1(k.w64, &buf[start(i)..start(i) + len], &key, pos, f);
                let got = &out[PAD + 32 * i..PAD + 32 * i + 32];
                if got != want {
                    return Err(format!(
                        "{} hash_many: {} inputs of {} blocks, offset {:#x} delta {:#x} flags {:?}: output {} is {} want {}",
                        k.name, n, blocks, offset, delta, f, i, spec::hex(got), spec::hex(&want)
                    ));
                }
            }
            if out[..PAD].iter().chain(&out[PAD + 32 * n..]).any(|&b| b != 0xa5) {
                return Err(format!("{} hash_many: wrote outside its {} outputs", k.name, n));
            }
            if buf != before {
                return Err(format!("{} hash_many: modified its input", k.name));
            }
            Ok(())
        }
        _ => panic!("harness: unknown case"),
    }
}

pub fn offsets() -> Vec<u64> {
    vec![0, 1, 64, 2048, 0xffff_ffff, 1 << 32, (1 << 32) + 2, 0x1234_5678_9abc_def0, 1 << 63, u64::MAX]
}

pub fn enumerate(ctx: &Ctx, ks: &[Kernel]) {
    ctx.info("kernels", ks.iter().map(|k| k.name.clone()).collect::<Vec<_>>().join(", "));
    for (ki, k) in ks.iter().enumerate() {
        let ki = ki as u64;
        let bl = k.block_len() as u64;
        let funcs: Vec<u64> = (0..2).filter(|&x| if x == 1 { k.xof.is_some() } else { k.compress.is_some() }).collect();
        for &x in &funcs {
            // Every block length x every flag byte x boundary offsets.
            let offs = offsets();
            ctx.par(bl as usize + 1, |len| {
                let mut n = 0;
                for flags in 0..256 {
                    for &off in &offs {
                        for b in ctx.q(vec![2], vec![0, 1, 2, 3]) {
                            ctx.case("comp", &[ki, x, len as u64, flags, off, b, 0, 0]);
                            n += 1;
                        }
                    }
                }
                ctx.cover(n, n, n);
            });
            // Every bit of the offset, alone and missing.
            let mut n = 0;
            for bit in 0..64 {
                for off in [1u64 << bit, !(1u64 << bit)] {
                    for b in 0..4 {
                        ctx.case("comp", &[ki, x, bl, 1, off, b, 0, 0]);
                        n += 1;
                    }
                }
            }
            ctx.cover(n, n, n);
            // Every bit and every pair of bits of chaining value and block.
            let bits = 8 * (32 + bl);
            ctx.par(bits as usize + 1, |i| {
                let mut n = 0;
                for b in ctx.q(vec![0, 1, 2], vec![0, 1, 2, 3, 4, 5, 6]) {
                    ctx.case("comp", &[ki, x, bl, 11, 0, b, i as u64, 0]);
                    n += 1;
                    {
                        for j in i as u64 + 1..=bits {
                            ctx.case("comp", &[ki, x, bl, 11, 0, b, i as u64, j]);
                            n += 1;
                        }
                    }
                }
                ctx.cover(n, n, n);
            });
        }
        if k.many.is_none() {
            continue;
        }
        let ns: Vec<u64> = match k.exactly {
            Some(n) => vec![n as u64],
            None => (0..=ctx.q(33, 48)).collect(),
        };
        let degree = 16u64;
        let chunk = if k.w64 { 4096u64 } else { 2048 };
        let mut jobs: Vec<Vec<u64>> = Vec::new();
        for &blocks in &k.blocks {
            for &n in &ns {
                let full = blocks <= 2 || blocks * k.block_len() == chunk as usize;
                if ctx.quick() && !full && n > 9 && n % 4 > 1 {
                    continue;
                }
                // Deltas and offsets: every lane can be the one that crosses a
                // 32-bit boundary, for chunk-sized and other strides.
                let mut od: Vec<(u64, u64)> = vec![(0, 0), (0, chunk), (1 << 63, 0), (u64::MAX, 0), (0xffff_ffff, 0)];
                for lane in 0..=std::cmp::min(n, degree) {
                    for hi in [1u64 << 32, 1 << 40, 1 << 63] {
                        if full || lane % 3 == 1 {
                            od.push((hi - lane * chunk, chunk));
                        }
                    }
                }
                for delta in [1u64, 64, 1 << 31, 0xffff_ffff, 1 << 32, (1 << 32) + 1, 1 << 50] {
                    od.push((0, delta));
                    od.push((0x0123_4567_89ab_cdef, delta));
                }
                // The very top of the range.
                for m in [n, n + 1] {
                    od.push(((u64::MAX - m * chunk) / chunk * chunk, chunk));
                }
                for (o, d) in od {
                    if o.checked_add(d.checked_mul(n + 1).unwrap()).is_none() {
                        continue;
                    }
                    jobs.push(vec![ki, blocks as u64, n, 0, o, d, 16, 1, 2, 2, 0]);
                }
                for layout in 1..4 {
                    jobs.push(vec![ki, blocks as u64, n, layout, chunk, chunk, 0, 1, 2, 3, 0]);
                }
                for b in 0..2 {
                    jobs.push(vec![ki, blocks as u64, n, 0, 0, 0, 4, 0, 0, b, 0]);
                }
            }
        }
        // Every flag byte in each of the three places.
        for &blocks in k.blocks.iter().filter(|&&b| b <= 3) {
            for &n in ns.iter().filter(|&&n| [1, 2, 3, 4, 8, 13, 16, 20].contains(&n)) {
                for f in 0..256 {
                    jobs.push(vec![ki, blocks as u64, n, 0, 5 << 33, chunk, f, 0, 0, 2, 0]);
                    jobs.push(vec![ki, blocks as u64, n, 0, 5 << 33, chunk, 0, f, 0, 2, 0]);
                    jobs.push(vec![ki, blocks as u64, n, 0, 5 << 33, chunk, 0, 0, f, 2, 0]);
                }
                for f in 0..64u64 {
                    jobs.push(vec![ki, blocks as u64, n, 0, 0, chunk, 1 << (f % 8), 1 << (f / 8), 0x24, 2, 0]);
                }
            }
        }
        // Every key bit and every input bit, with every kind of batch inside.
        let b0 = k.blocks[0] as u64;
        for &n in ns.iter().filter(|&&n| Some(n as usize) == k.exactly || [1, 2, 3, 4, 8, 13, 16, 31].contains(&n)) {
            for bit in 1..=256 + n * b0 * bl * 8 {
                for b in ctx.q(vec![0], vec![0, 1, 2]) {
                    jobs.push(vec![ki, b0, n, 0, 0, 0, 4, 0, 0, b, bit]);
                }
            }
        }
        // Counts that do not fit a byte or two.
        let mut long: Vec<Vec<u64>> = Vec::new();
        let degree = k.exactly.unwrap_or(8) as u64;
        if k.exactly.is_none() {
            for n in [63u64, 64, 65, 127, 128, 129, 255, 256, 257, 258, 260, 264, 271, 272, 511, 512, 513, 1000, 1024, 4096, 65_535, 65_536, 65_537, 65_545] {
                long.push(vec![ki, b0, n, 0, 0, chunk, 16, 1, 2, 2, 0]);
            }
        }
        if k.any_blocks {
            for blocks in [63u64, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 767, 768, 769, 1024, 1025, 4096, 32_768, 65_535, 65_536, 65_537] {
                for n in [1, 2, 3, degree, degree + 1, 16, 17] {
                    if ns.contains(&n) && (blocks <= 1025 || [1, degree, degree + 1].contains(&n)) {
                        long.push(vec![ki, blocks, n, if blocks > 1025 { 2 } else { 0 }, 5 << 31, chunk, 16, 1, 2, 2, 0]);
                    }
                }
            }
        }
        long.retain(|j| (j[2] * (j[1] * bl + 32)) as usize <= k.room);
        ctx.par(long.len(), |i| {
            ctx.case("many", &long[i]);
            ctx.cover(1, long[i][2], 1);
        });
        let step = 64;
        ctx.par((jobs.len() + step - 1) / step, |i| {
            let (mut n, mut outs) = (0, 0);
            for j in &jobs[i * step..std::cmp::min(jobs.len(), (i + 1) * step)] {
                ctx.case("many", j);
                n += 1;
                outs += j[2];
            }
            ctx.cover(n, outs, n);
        });
    }
    ctx.sample("compress: every block length x every flag byte x 10 offsets; every offset bit; every pair of bits of (cv, block)");
    ctx.sample("hash_many: every input count to 33 and some to 65545 x block counts (to 65537) x offsets placing each lane on a 32-bit carry; every flag byte in each place; every key and input bit; adjacent, reversed, aliased and misaligned inputs");
    ctx.note("kernel offsets are explored on the domain where offset + n*delta does not overflow, as all callers guarantee");
}
