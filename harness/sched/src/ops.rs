//! What the threads do, and what must come out of it.

use mcx::spec::{self, Mode};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

#[cfg(baokeshed_verif)]
pub fn platforms() -> Vec<u64> {
    let v = (1..=3u8).filter(|&p| baokeshed::verif::force_platform(p)).map(|p| p as u64).collect();
    baokeshed::verif::force_platform(0);
    v
}
#[cfg(baokeshed_verif)]
pub fn force(p: u64) {
    if !baokeshed::verif::force_platform(p as u8) {
        panic!("harness: backend {} is not available here", p);
    }
}
#[cfg(baokeshed_verif)]
pub fn set_point(f: Option<fn()>) {
    baokeshed::verif::set_point(f)
}
#[cfg(not(baokeshed_verif))]
pub fn platforms() -> Vec<u64> {
    vec![0]
}
#[cfg(not(baokeshed_verif))]
pub fn force(_: u64) {}
#[cfg(not(baokeshed_verif))]
pub fn set_point(_: Option<fn()>) {}

/// (kind, length, mode) on message number `who`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Op {
    pub kind: u64,
    pub len: u64,
    pub mode: u64,
    pub who: u64,
}

pub const ONE_SHOT: u64 = 0;
pub const HASHER: u64 = 1;
pub const XOF: u64 = 2;
pub const TWICE: u64 = 3;
pub const COMPARE: u64 = 4;
pub const COPY: u64 = 5;
pub const KINDS: [&str; 6] = [
    "one-shot",
    "hasher in two updates",
    "two output blocks",
    "one-shot twice",
    "hash, compare, print",
    "copy into a hasher",
];

/// Gives at most a third of everything at a time.
struct Thirds<'a>(&'a [u8], usize);

impl std::io::Read for Thirds<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(self.0.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn new_hasher(op: &Op, k: &[u8; 32]) -> baokeshed::Hasher {
    match op.mode {
        0 => baokeshed::Hasher::new(),
        1 => baokeshed::Hasher::new_keyed(k),
        _ => baokeshed::Hasher::new_derive_key(k),
    }
}

impl Op {
    pub fn from(a: &[u64], who: u64) -> Op {
        Op { kind: a[0], len: a[1], mode: a[2], who }
    }
}

pub fn message(who: u64, len: u64) -> &'static [u8] {
    static M: OnceLock<Mutex<HashMap<u64, &'static [u8]>>> = OnceLock::new();
    let mut g = M.get_or_init(Default::default).lock().unwrap();
    let m = g.entry(who).or_insert_with(|| Box::leak(spec::fill(100 + who, 1 << 21).into_boxed_slice()));
    &m[..len as usize]
}

fn key(who: u64) -> [u8; 32] {
    let mut k = [0; 32];
    k.copy_from_slice(&spec::fill(900 + who, 32));
    k
}

fn mode(op: &Op) -> Mode {
    match op.mode {
        0 => spec::mode_hash(),
        1 => spec::mode_keyed(&key(op.who)),
        _ => spec::mode_derive(&key(op.who)),
    }
}

pub type Bytes = [u8; 128];

pub fn expected(op: &Op) -> Bytes {
    static E: OnceLock<Mutex<HashMap<Op, Bytes>>> = OnceLock::new();
    let cache = E.get_or_init(Default::default);
    if let Some(b) = cache.lock().unwrap().get(op) {
        return *b;
    }
    let m = message(op.who, op.len);
    let node = spec::tree(m, 0, &mode(op));
    let mut b = [0; 128];
    match op.kind {
        ONE_SHOT | HASHER | COPY => b[..32].copy_from_slice(&node.hash()),
        XOF => b.copy_from_slice(&node.out_bytes(128)),
        TWICE => {
            b[..32].copy_from_slice(&node.hash());
            b[32..64].copy_from_slice(&spec::tree(&m[..op.len as usize / 2], 0, &mode(op)).hash());
        }
        _ => {
            b[..64].copy_from_slice(spec::hex(&node.hash()).as_bytes());
            b[64] = 1;
        }
    }
    cache.lock().unwrap().insert(*op, b);
    b
}

fn digest(op: &Op, k: &[u8; 32], m: &[u8]) -> [u8; 32] {
    match op.mode {
        0 => *baokeshed::hash(m).as_bytes(),
        1 => *baokeshed::keyed_hash(k, m).as_bytes(),
        _ => baokeshed::derive_key(k, m),
    }
}

/// The real thing. No allocation, so that it can be interrupted anywhere.
#[inline(never)]
pub fn run(op: &Op, k: &[u8; 32], m: &[u8]) -> Bytes {
    let mut b = [0; 128];
    match op.kind {
        ONE_SHOT => b[..32].copy_from_slice(&digest(op, k, m)),
        HASHER => {
            let mut h = new_hasher(op, k);
            let cut = m.len() / 3;
            h.update(&m[..cut]);
            h.update(&m[cut..]);
            b[..32].copy_from_slice(h.finalize().as_bytes());
        }
        COPY => {
            let mut h = new_hasher(op, k);
            let n = baokeshed::copy::copy_wide(&mut Thirds(m, m.len() / 3 + 1), &mut h);
            if n.ok() == Some(m.len() as u64) {
                b[..32].copy_from_slice(h.finalize().as_bytes());
            }
        }
        XOF => {
            let mut o = match op.mode {
                0 => baokeshed::hash_xof(m),
                1 => baokeshed::keyed_hash_xof(k, m),
                _ => baokeshed::derive_key_xof(k, m),
            };
            b[..64].copy_from_slice(&o.read());
            b[64..].copy_from_slice(&o.read());
        }
        TWICE => {
            b[..32].copy_from_slice(&digest(op, k, m));
            b[32..64].copy_from_slice(&digest(op, k, &m[..m.len() / 2]));
        }
        _ => {
            let h = baokeshed::Hash::from(digest(op, k, m));
            let mut other = *h.as_bytes();
            let same = h == baokeshed::Hash::from(other);
            other[7] ^= 0x10;
            b[..64].copy_from_slice(h.to_hex().as_bytes());
            b[64] = (same && h != baokeshed::Hash::from(other)) as u8;
        }
    }
    b
}

pub fn inputs(op: &Op) -> ([u8; 32], &'static [u8]) {
    (key(op.who), message(op.who, op.len))
}

pub fn differ(op: &Op, got: &Bytes) -> Option<String> {
    let want = expected(op);
    if *got == want {
        return None;
    }
    let at = got.iter().zip(&want[..]).position(|(a, b)| a != b).unwrap();
    Some(format!(
        "{} of {} bytes, mode {}: from byte {} {} instead of {}",
        KINDS[op.kind as usize],
        op.len,
        op.mode,
        at,
        spec::hex(&got[at..std::cmp::min(128, at + 16)]),
        spec::hex(&want[at..std::cmp::min(128, at + 16)])
    ))
}
