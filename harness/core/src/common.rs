use mcx::spec::{self, Memo, Mode, Node};
use mcx::{inc::Inc, Ctx, Res};

pub use mcx::spec::{hex, CHUNK};

/// The backends this machine can run: 1 portable, 2 SSE4.1, 3 AVX2. Without
/// the hook, 0: whatever the machine picks.
#[cfg(baokeshed_verif)]
pub fn platforms() -> Vec<u64> {
    let v = (1..=3u8).filter(|&p| baokeshed::verif::force_platform(p)).map(|p| p as u64).collect();
    baokeshed::verif::force_platform(0);
    v
}
#[cfg(baokeshed_verif)]
pub fn force(p: u64) {
    if !baokeshed::verif::force_platform(p as u8) {
        panic!("harness: backend {} is not available here", p);
    }
}
#[cfg(not(baokeshed_verif))]
pub fn platforms() -> Vec<u64> {
    vec![0]
}
#[cfg(not(baokeshed_verif))]
pub fn force(_: u64) {}

pub fn note_platforms(ctx: &Ctx) {
    let names: Vec<&str> = platforms()
        .iter()
        .map(|p| ["the detected one only (hook unavailable)", "portable", "sse4.1", "avx2"][*p as usize])
        .collect();
    ctx.info("backends", names.join(", "));
}

/// Modes: 0 default, then (keyed, derive) x key index.
pub const KEYS: usize = 4;

pub fn key(i: u64) -> [u8; 32] {
    match i {
        0 => {
            let mut k = [0; 32];
            k.copy_from_slice(&spec::fill(777, 32));
            k
        }
        1 => [0; 32],
        2 => spec::cv_bytes(&spec::IV),
        3 => [0xff; 32],
        // A single bit.
        n => {
            let mut k = [0; 32];
            let b = (n - 4) as usize;
            k[b / 8] = 1 << (b % 8);
            k
        }
    }
}

/// Mode number m: 0 is default; 2k+1 is keyed with key k; 2k+2 derives with k.
pub fn mode(m: u64) -> Mode {
    if m == 0 {
        spec::mode_hash()
    } else if m % 2 == 1 {
        spec::mode_keyed(&key((m - 1) / 2))
    } else {
        spec::mode_derive(&key((m - 2) / 2))
    }
}

pub fn mode_name(m: u64) -> String {
    if m == 0 {
        "hash".into()
    } else if m % 2 == 1 {
        format!("keyed_hash(key#{})", (m - 1) / 2)
    } else {
        format!("derive_key(key#{})", (m - 2) / 2)
    }
}

pub fn one_shot(m: u64, input: &[u8]) -> [u8; 32] {
    if m == 0 {
        *baokeshed::hash(input).as_bytes()
    } else if m % 2 == 1 {
        *baokeshed::keyed_hash(&key((m - 1) / 2), input).as_bytes()
    } else {
        baokeshed::derive_key(&key((m - 2) / 2), input)
    }
}

pub fn one_shot_xof(m: u64, input: &[u8]) -> baokeshed::Output {
    if m == 0 {
        baokeshed::hash_xof(input)
    } else if m % 2 == 1 {
        baokeshed::keyed_hash_xof(&key((m - 1) / 2), input)
    } else {
        baokeshed::derive_key_xof(&key((m - 2) / 2), input)
    }
}

pub fn hasher(m: u64) -> baokeshed::Hasher {
    if m == 0 {
        baokeshed::Hasher::new()
    } else if m % 2 == 1 {
        baokeshed::Hasher::new_keyed(&key((m - 1) / 2))
    } else {
        baokeshed::Hasher::new_derive_key(&key((m - 2) / 2))
    }
}

pub fn eq(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        Ok(())
    } else {
        let n = std::cmp::min(48, got.len());
        Err(format!("{}: got {} want {}", what, hex(&got[..n]), hex(&want[..std::cmp::min(48, want.len())])))
    }
}

/// One-shot digest and first output block against the expected root.
pub fn check_one_shot(m: u64, input: &[u8], root: &Node) -> Res {
    let want = root.out(0);
    eq("digest", &one_shot(m, input), &want[..32])?;
    let mut out = one_shot_xof(m, input);
    eq("extended output", &out.read()[..], &want)
}

pub fn memo_for<'a>(data: &'a [u8], m: u64) -> Memo<'a> {
    Memo::new(data, mode(m))
}

/// Contents: 0 position-dependent, 1 zeros, 2 ones, 3 short period.
pub fn content(ctx_seed: u64, kind: u64, n: usize) -> Vec<u8> {
    match kind {
        0 => spec::fill(ctx_seed, n),
        1 => vec![0; n],
        2 => vec![0xff; n],
        _ => (0..n).map(|i| (i % 251) as u8).collect(),
    }
}

/// Ways to feed a hasher.
pub const WAYS: u64 = 8;

#[derive(Clone)]
pub struct RustHasher(pub baokeshed::Hasher);

impl Inc for RustHasher {
    fn update(&mut self, input: &[u8], way: u64) -> Res {
        use std::io::{IoSlice, Write};
        let mut rest = input;
        // Whatever is not accepted is offered again.
        loop {
            let n = match way {
                0 => {
                    self.0.update(rest);
                    return Ok(());
                }
                1 => self.0.write(rest),
                2 => self.0.write_all(rest).map(|_| rest.len()),
                3 => self.0.write_vectored(&[IoSlice::new(rest)]),
                // Slices of different sizes, empty ones among them.
                4 | 5 => {
                    let cut = rest.len() / if way == 4 { 2 } else { 65 };
                    let (a, b) = rest.split_at(cut);
                    let (c, d) = b.split_at(b.len() - b.len() / 33);
                    let none = IoSlice::new(&[]);
                    self.0.write_vectored(&[none, IoSlice::new(a), none, none, IoSlice::new(c), IoSlice::new(d), none])
                }
                6 => {
                    let n = std::io::copy(&mut &rest[..], &mut self.0).map_err(|e| format!("io::copy failed: {}", e))?;
                    Ok(n as usize)
                }
                // As a boxed writer, by reference.
                _ => {
                    let mut w: Box<dyn Write + '_> = Box::new(self.0.by_ref());
                    w.write_all(rest).map(|_| rest.len())
                }
            }
            .map_err(|e| format!("write failed: {}", e))?;
            if n > rest.len() || n == 0 && !rest.is_empty() {
                return Err(format!("write accepted {} of {} bytes", n, rest.len()));
            }
            rest = &rest[n..];
            if rest.is_empty() {
                break;
            }
        }
        self.0.flush().map_err(|e| format!("flush failed: {}", e))
    }
    fn verify(&self, root: &Node) -> Res {
        let want = root.out(0);
        eq("finalize", self.0.finalize().as_bytes(), &want[..32])?;
        let mut out = self.0.finalize_xof();
        eq("finalize_xof", &out.read()[..], &want)
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
    #[cfg(baokeshed_verif_state)]
    fn state(&self) -> Option<Vec<u8>> {
        Some(self.0.verif_state())
    }
    #[cfg(not(baokeshed_verif_state))]
    fn state(&self) -> Option<Vec<u8>> {
        None
    }
}
