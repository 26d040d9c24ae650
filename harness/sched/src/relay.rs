//! One hasher, handed from thread to thread between any two operations. The
//! threads take turns, and each of them also has a hasher of its own.

use crate::ops;
use baokeshed::{Hasher, Output};
use mcx::spec::{self, Mode};
use mcx::{Ctx, Res};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::OnceLock;

const THREADS: usize = 2;
pub const OPS: u64 = 9;
const NAMES: [&str; OPS as usize] = [
    "update(70)", "update to the end of the next chunk", "update(wide)", "finalize", "finalize_xof and read", "continue with a clone",
    "copy_wide(3000)", "open an output", "read the output",
];

/// What travels.
struct Baton {
    hasher: Hasher,
    output: Option<(Output, u64, u64)>,
    len: u64,
    mode: u64,
    wide: u64,
}
/// Does not ask the library to promise what this check is about.
struct Given<T>(T);
unsafe impl<T> Send for Given<T> {}

fn key(mode: u64, who: u64) -> [u8; 32] {
    let mut k = [0; 32];
    k.copy_from_slice(&spec::fill(700 + 10 * who + mode, 32));
    k
}

fn hasher(mode: u64, who: u64) -> Hasher {
    match mode {
        0 => Hasher::new(),
        1 => Hasher::new_keyed(&key(mode, who)),
        _ => Hasher::new_derive_key(&key(mode, who)),
    }
}

fn of(mode: u64, who: u64) -> Mode {
    match mode {
        0 => spec::mode_hash(),
        1 => spec::mode_keyed(&key(mode, who)),
        _ => spec::mode_derive(&key(mode, who)),
    }
}

const LONGEST: u64 = 6 * 9 * 2048;
fn wanted(mode: u64, who: u64, len: u64) -> Vec<u8> {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static W: OnceLock<Mutex<HashMap<(u64, u64, u64), Vec<u8>>>> = OnceLock::new();
    let cache = W.get_or_init(Default::default);
    if let Some(v) = cache.lock().unwrap().get(&(mode, who, len)) {
        return v.clone();
    }
    let v = spec::tree(&ops::message(who, LONGEST)[..len as usize], 0, &of(mode, who)).out_bytes(320);
    cache.lock().unwrap().insert((mode, who, len), v.clone());
    v
}

fn same(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        return Ok(());
    }
    Err(format!("{}: got {} want {}", what, spec::hex(got), spec::hex(want)))
}

fn step(b: &mut Baton, op: u64) -> Res {
    let m = ops::message(0, LONGEST);
    let n = [70, 4096 - b.len % 2048, b.wide, 0, 0, 0, 3000, 0, 0][op as usize];
    let piece = &m[b.len as usize..(b.len + n) as usize];
    let want = || wanted(b.mode, 0, b.len);
    match op {
        0..=2 => {
            b.hasher.update(piece);
        }
        3 => same("finalize", b.hasher.finalize().as_bytes(), &want()[..32])?,
        4 => {
            let mut o = b.hasher.finalize_xof();
            same("first block", &o.read()[..], &want()[..64])?;
            same("second block", &o.read()[..], &want()[64..128])?;
        }
        5 => b.hasher = b.hasher.clone(),
        6 => {
            let got = baokeshed::copy::copy_wide(&mut &piece[..], &mut b.hasher);
            if got.as_ref().ok() != Some(&n) {
                return Err(format!("copy_wide returned {:?}", got));
            }
        }
        7 => b.output = Some((b.hasher.finalize_xof(), b.len, 0)),
        _ => {
            if let Some((o, len, at)) = &mut b.output {
                let want = wanted(b.mode, 0, *len);
                same("output block", &o.read()[..], &want[*at as usize..*at as usize + 64])?;
                *at += 64;
            }
        }
    }
    b.len += n;
    Ok(())
}

/// Serves one thread's turns. Before each of them its own hasher moves on.
fn serve(platform: u64, me: u64, mode: u64, turns: Receiver<(Given<Baton>, u64)>, back: Sender<(Given<Baton>, Res)>) -> Res {
    ops::force(platform);
    let own_mode = (mode + me) % 3;
    let mut own = hasher(own_mode, 1 + me);
    let m = ops::message(1 + me, LONGEST);
    let mut at = 0;
    while let Ok((mut b, op)) = turns.recv() {
        let n = [65, 2048, 1, 3000][(at as usize / 65) % 4];
        own.update(&m[at..at + n]);
        at += n;
        let r = mcx::run_caught(|| step(&mut b.0, op));
        if back.send((b, r)).is_err() {
            break;
        }
    }
    same("a thread's own hasher", own.finalize().as_bytes(), &wanted(own_mode, 1 + me, at as u64)[..32])
}

/// platform, mode, wide update, thread of every operation (a bit each), operations
pub fn check(a: &[u64]) -> Res {
    let (platform, mode, wide, who, script) = (a[0], a[1], a[2], a[3], &a[4..]);
    std::thread::scope(|s| {
        let mut to = vec![];
        let mut from = vec![];
        let mut threads = vec![];
        for t in 0..THREADS as u64 {
            let (x, y) = channel();
            let (z, w) = channel();
            to.push(x);
            from.push(w);
            threads.push(s.spawn(move || serve(platform, t, mode, y, z)));
        }
        let run = || -> Res {
            ops::force(platform);
            let mut baton = Baton { hasher: hasher(mode, 0), output: None, len: 0, mode, wide };
            ops::force(0);
            // Both threads look at the result in the end.
            for (i, &op) in script.iter().chain(&[4, 4]).enumerate() {
                let t = if i < script.len() { (who >> i & 1) as usize } else { i - script.len() };
                let _ = to[t].send((Given(baton), op));
                match from[t].recv() {
                    Ok((b, r)) => {
                        if let Err(e) = r {
                            return Err(format!("operation {} ({}) on thread {}: {}", i, NAMES[op as usize], t, e));
                        }
                        baton = b.0;
                    }
                    Err(_) => return Err(format!("thread {} ended early", t)),
                }
            }
            Ok(())
        };
        let r = run();
        to.clear();
        let mut r = r;
        for t in threads {
            let own = t.join().unwrap_or_else(|_| Err("a thread panicked".into()));
            r = r.and(own);
        }
        r
    })
}

pub fn enumerate(ctx: &Ctx, platforms: &[u64]) {
    let depth = ctx.q(4u32, 5);
    let shards = 32u64;
    ctx.par_procs(platforms.len() * shards as usize, |i| {
        let (platform, shard) = (platforms[i / shards as usize], i as u64 % shards);
        let mut n = 0;
        for script in (0..OPS.pow(depth)).filter(|s| s % shards == shard) {
            let digits: Vec<u64> = (0..depth).map(|k| script / OPS.pow(k) % OPS).collect();
            // Nothing to read before an output is open.
            let opened = digits.iter().position(|&d| d == 7).unwrap_or(digits.len());
            if digits[..opened].contains(&8) {
                continue;
            }
            // The first operation is on thread 0; at least one on the other.
            for who in 0..1u64 << (depth - 1) {
                if ctx.stopped() {
                    return;
                }
                let mut a = vec![platform, (script / shards + who) % 3, 9 * 2048 - 11, who << 1];
                a.extend(&digits);
                ctx.case("relay", &a);
                n += 1;
            }
        }
        ctx.cover(n, n * (depth as u64 + 2), n);
        ctx.add("relays", n);
    });
}
