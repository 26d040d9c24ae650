//! Runs under Miri, for processors other than this machine's. Reads cases from
//! standard input, one per line, and answers each with a line.
#![allow(unexpected_cfgs)]

mod gen;

use gen::{array, bytes, key};
use std::io::{BufRead, Write};

fn one_shot(m: u64, input: &[u8]) -> baokeshed::Output {
    match m {
        0 => baokeshed::hash_xof(input),
        1 => baokeshed::keyed_hash_xof(&key(), input),
        _ => baokeshed::derive_key_xof(&key(), input),
    }
}

fn digest(m: u64, input: &[u8]) -> [u8; 32] {
    match m {
        0 => baokeshed::hash(input).into(),
        1 => baokeshed::keyed_hash(&key(), input).into(),
        _ => baokeshed::derive_key(&key(), input),
    }
}

fn hasher(m: u64) -> baokeshed::Hasher {
    match m {
        0 => baokeshed::Hasher::new(),
        1 => baokeshed::Hasher::new_keyed(&key()),
        _ => baokeshed::Hasher::new_derive_key(&key()),
    }
}

fn words(b: &[u8; 32]) -> [u32; 8] {
    let mut w = [0; 8];
    for (w, b) in w.iter_mut().zip(b.chunks_exact(4)) {
        *w = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    }
    w
}

fn words64(b: &[u8; 32]) -> [u64; 4] {
    let mut w = [0; 4];
    for (w, b) in w.iter_mut().zip(b.chunks_exact(8)) {
        *w = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
    }
    w
}

#[cfg(baokeshed_verif)]
fn force(p: u64) -> bool {
    baokeshed::verif::force_platform(p as u8)
}
#[cfg(not(baokeshed_verif))]
fn force(p: u64) -> bool {
    p == 0
}

/// Every input and output in an allocation of exactly its size.
fn many<const N: usize>(kernel: u64, count: usize, seed: u64, offset: u64, delta: u64, f: [u8; 3]) -> Option<Vec<u8>>
where
    [u8; N]: arrayvec::Array<Item = u8>,
{
    let owned: Vec<Box<[u8; N]>> = (0..count).map(|i| Box::new(array(seed + i as u64))).collect();
    let inputs: Vec<&[u8; N]> = owned.iter().map(|b| &**b).collect();
    let k = array::<32>(seed + 500);
    let mut out = vec![0u8; count * 32].into_boxed_slice();
    match kernel {
        1 => baokeshed::portable::hash_many(&inputs, &words(&k), offset, delta, f[0], f[1], f[2], &mut out),
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        2 if is_x86_feature_detected!("sse4.1") => unsafe {
            baokeshed::sse41::hash_many(&inputs, &words(&k), offset, delta, f[0], f[1], f[2], &mut out)
        },
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        3 if is_x86_feature_detected!("avx2") => unsafe {
            baokeshed::avx2::hash_many(&inputs, &words(&k), offset, delta, f[0], f[1], f[2], &mut out)
        },
        64 => baokeshed::portable64::hash_many(&inputs, &words64(&k), offset, delta, f[0], f[1], f[2], &mut out),
        _ => return None,
    }
    Some(out.into_vec())
}

fn compress(kernel: u64, xof: bool, seed: u64, len: u8, offset: u64, flags: u8) -> Option<Vec<u8>> {
    let k = array::<32>(seed + 500);
    let block = Box::new(array::<64>(seed));
    let mut cv = words(&k);
    let wide = Box::new(array::<128>(seed));
    let mut cv64 = words64(&k);
    let mut after = None;
    let out = match (kernel, xof) {
        (1, false) => {
            baokeshed::portable::compress(&mut cv, &block, len, offset, flags);
            None
        }
        (1, true) => Some(baokeshed::portable::compress_xof(&cv, &block, len, offset, flags).to_vec()),
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        (2, _) if is_x86_feature_detected!("sse4.1") => unsafe {
            if xof {
                Some(baokeshed::sse41::compress_xof(&cv, &block, len, offset, flags).to_vec())
            } else {
                baokeshed::sse41::compress(&mut cv, &block, len, offset, flags);
                None
            }
        },
        (64, false) => {
            baokeshed::portable64::compress(&mut cv64, &wide, len, offset, flags);
            after = Some(cv64.iter().flat_map(|w| w.to_le_bytes()).collect());
            None
        }
        (64, true) => Some(baokeshed::portable64::compress_xof(&cv64, &wide, len, offset, flags).to_vec()),
        _ => return None,
    };
    Some(out.or(after).unwrap_or_else(|| cv.iter().flat_map(|w| w.to_le_bytes()).collect()))
}

/// Ends at once, however small a buffer it is given.
struct Pieces<'a>(&'a [u8], usize);

impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(self.0.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// None: not on this processor, or not without the hooks.
fn answer(kind: &str, a: &[u64]) -> Option<Vec<u8>> {
    let mut out = vec![];
    match kind {
        // platform mode length blocks
        "hash" => {
            if !force(a[0]) {
                return None;
            }
            let input = bytes(a[2], a[2] as usize).into_boxed_slice();
            if a[3] == 0 {
                out.extend_from_slice(&digest(a[1], &input));
            } else {
                let mut xof = one_shot(a[1], &input);
                for i in 0..a[3] {
                    // A clone goes on from where it was taken.
                    out.extend_from_slice(&if i % 2 == 0 { xof.read() } else { xof.clone().read() });
                    if i % 2 == 1 {
                        xof.read();
                    }
                }
            }
        }
        // platform mode piece...: the digest after each
        "pieces" => {
            if !force(a[0]) {
                return None;
            }
            let total: u64 = a[2..].iter().sum();
            let input = bytes(total, total as usize).into_boxed_slice();
            let mut h = hasher(a[1]);
            let mut at = 0;
            for (i, &n) in a[2..].iter().enumerate() {
                let piece = &input[at..at + n as usize];
                if i % 2 == 0 {
                    h.update(piece);
                } else {
                    std::io::Write::write_all(&mut h, piece).unwrap();
                }
                at += n as usize;
                out.extend_from_slice(h.clone().finalize().as_bytes());
            }
            let mut xof = h.finalize_xof();
            xof.read();
            out.extend_from_slice(&xof.clone().read());
        }
        // platform mode chunks subtrees piece...
        "placed" => {
            if !force(a[0]) {
                return None;
            }
            #[cfg(not(baokeshed_verif_state))]
            return None;
            #[cfg(baokeshed_verif_state)]
            {
                let cvs: Vec<[u8; 32]> = (0..a[3]).map(|i| array(9000 + i)).collect();
                let mut h = hasher(a[1]);
                h.verif_place(&cvs, a[2] * 2048);
                for &n in &a[4..] {
                    h.update(&bytes(n, n as usize));
                    out.extend_from_slice(h.finalize().as_bytes());
                }
            }
        }
        // 0 mode chunks subtrees piece...
        "refplaced" => {
            #[cfg(not(baokeshed_verif_state))]
            return None;
            #[cfg(baokeshed_verif_state)]
            {
                let cvs: Vec<[u32; 8]> = (0..a[3]).map(|i| words(&array(9000 + i))).collect();
                let mut h = match a[1] {
                    0 => reference_impl::Hasher::new(),
                    1 => reference_impl::Hasher::new_keyed(&key()),
                    _ => reference_impl::Hasher::new_derive_key(&key()),
                };
                h.verif_place(&cvs, a[2] * 2048);
                for &n in &a[4..] {
                    h.update(&bytes(n, n as usize));
                    let mut o = [0; 32];
                    h.finalize(&mut o);
                    out.extend_from_slice(&o);
                }
            }
        }
        // mode output_length piece...
        "ref" => {
            let mut h = match a[0] {
                0 => reference_impl::Hasher::new(),
                1 => reference_impl::Hasher::new_keyed(&key()),
                _ => reference_impl::Hasher::new_derive_key(&key()),
            };
            let total: u64 = a[2..].iter().sum();
            let input = bytes(total, total as usize).into_boxed_slice();
            let mut at = 0;
            for &n in &a[2..] {
                h.update(&input[at..at + n as usize]);
                at += n as usize;
                let mut o = vec![0; a[1] as usize].into_boxed_slice();
                h.finalize(&mut o);
                out.extend_from_slice(&o);
            }
        }
        // kernel blocks count seed offset delta flags start end
        "many" => {
            let (k, n, s) = (a[0], a[2] as usize, a[3]);
            let f = [a[6] as u8, a[7] as u8, a[8] as u8];
            return match (k, a[1]) {
                (64, 1) => many::<128>(k, n, s, a[4], a[5], f),
                (64, 2) => many::<256>(k, n, s, a[4], a[5], f),
                (64, _) => many::<2048>(k, n, s, a[4], a[5], f),
                (_, 1) => many::<64>(k, n, s, a[4], a[5], f),
                (_, 2) => many::<128>(k, n, s, a[4], a[5], f),
                (_, 3) => many::<192>(k, n, s, a[4], a[5], f),
                _ => many::<2048>(k, n, s, a[4], a[5], f),
            };
        }
        // kernel xof seed length offset flags
        "compress" => return compress(a[0], a[1] != 0, a[2], a[3] as u8, a[4], a[5] as u8),
        // mode length piece
        "copy" => {
            let input = bytes(a[1], a[1] as usize).into_boxed_slice();
            let mut h = hasher(a[0]);
            let n = baokeshed::copy::copy_wide(&mut Pieces(&input, a[2] as usize), &mut h).unwrap();
            out.extend_from_slice(&n.to_le_bytes());
            out.extend_from_slice(h.finalize().as_bytes());
        }
        // seed, flipped bit or 256
        "value" => {
            let b = array::<32>(a[0]);
            let mut c = b;
            if a[1] < 256 {
                c[a[1] as usize / 8] ^= 1 << (a[1] % 8);
            }
            let h = baokeshed::Hash::from(b);
            let other = baokeshed::Hash::from(c);
            out.push((h == other) as u8);
            out.push((h == c) as u8);
            out.extend_from_slice(&<[u8; 32]>::from(h));
            out.extend_from_slice(h.to_hex().as_bytes());
            out.extend_from_slice(format!("{:?}", h).as_bytes());
        }
        // The platform's properties, for the record.
        "about" => {
            out.extend_from_slice(
                format!(
                    "{}-bit {} endian",
                    8 * std::mem::size_of::<usize>(),
                    if cfg!(target_endian = "big") { "big" } else { "little" }
                )
                .as_bytes(),
            );
            for p in 1..=3 {
                if force(p) {
                    out.extend_from_slice([&b""[..], b", portable", b", SSE4.1", b", AVX2"][p as usize]);
                }
            }
            force(0);
        }
        _ => panic!("no such case"),
    }
    Some(out)
}

fn main() {
    thread_local!(static LAST: std::cell::RefCell<String> = Default::default());
    std::panic::set_hook(Box::new(|info| LAST.with(|l| *l.borrow_mut() = info.to_string().replace('\n', " "))));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split(' ');
        let kind = it.next().unwrap();
        let a: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
        let text = match std::panic::catch_unwind(|| answer(kind, &a)) {
            Ok(Some(v)) => {
                let mut s = String::from("= ");
                for b in v {
                    s.push(char::from_digit((b >> 4) as u32, 16).unwrap());
                    s.push(char::from_digit((b & 15) as u32, 16).unwrap());
                }
                s
            }
            Ok(None) => "-".into(),
            Err(_) => LAST.with(|l| format!("! {}", l.borrow())),
        };
        println!("{}", text);
        std::io::stdout().flush().unwrap();
    }
}
