//! The Python implementation against the specification, called in a few
//! long-lived interpreters.

use crate::run::{content, key, mode, root, KEYS};
use mcx::spec::{self, hex, tree_after, Cv, CHUNK};
use mcx::{Ctx, Res};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

/// Interpreters as they start by default, and with -O.
static IDLE: [Mutex<Vec<Worker>>; 2] = [Mutex::new(Vec::new()), Mutex::new(Vec::new())];
static CALLS: AtomicU64 = AtomicU64::new(0);
static NOT_PLACED: AtomicBool = AtomicBool::new(false);

fn python() -> &'static str {
    ["/opt/vp/pyenv/bin/python", "/usr/bin/python3"].into_iter().find(|p| Path::new(p).exists()).unwrap_or("python3")
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn worker(optimized: bool) -> Worker {
    if let Some(w) = IDLE[optimized as usize].lock().unwrap().pop() {
        return w;
    }
    let mut child = Command::new(python())
        .args(if optimized { &["-O"][..] } else { &[] })
        .args(["-c", include_str!("worker.py"), "/repo/python"])
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("python");
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Worker { child, to, from }
}

const OPTIMIZED: u64 = 8;

/// kind 0: bytes; 1: after finished subtrees; 2: a bytearray; with 8: python -O.
fn ask(kind: u64, m: u64, data: &[u8], subs: &[(u64, Cv)], out_len: u64) -> Result<Option<Vec<u8>>, String> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let optimized = kind & OPTIMIZED != 0;
    let kind = kind & !OPTIMIZED;
    let mut w = worker(optimized);
    let k = if m == 0 { vec![] } else { key((m - 1) / 2).to_vec() };
    let which = if m == 0 { 0 } else { 2 - m % 2 };
    let mut req = format!("{} {} {} {} {} {}", kind, which, out_len, k.len(), data.len(), subs.len()).into_bytes();
    for (n, _) in subs {
        req.extend_from_slice(format!(" {}", n).as_bytes());
    }
    req.push(b'\n');
    req.extend_from_slice(&k);
    req.extend_from_slice(data);
    for (_, cv) in subs {
        req.extend_from_slice(&spec::cv_bytes(cv));
    }
    let mut head = [0; 9];
    let mut body = vec![];
    let r = w.to.write_all(&req).and_then(|_| w.to.flush()).and_then(|_| w.from.read_exact(&mut head)).and_then(|_| {
        let n = u64::from_le_bytes(head[1..].try_into().unwrap());
        body = vec![0; n as usize];
        w.from.read_exact(&mut body)
    });
    if r.is_err() {
        let mut text = String::new();
        let _ = w.child.kill();
        if let Some(e) = w.child.stderr.take() {
            for l in BufReader::new(e).lines().map_while(Result::ok) {
                text.push_str(&l);
                text.push(' ');
            }
        }
        return Err(format!("the interpreter ended: {}", text));
    }
    IDLE[optimized as usize].lock().unwrap().push(w);
    match head[0] {
        0 => Ok(Some(body)),
        2 => Ok(None),
        _ => Err(format!("raised {}", String::from_utf8_lossy(&body))),
    }
}

fn differ(got: &[u8], want: &[u8]) -> Res {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(std::cmp::min(got.len(), want.len()));
    let cut = |b: &[u8]| hex(&b[at..std::cmp::min(b.len(), at + 32)]);
    Err(format!("{} bytes instead of {}, differing from byte {}: {} instead of {}", got.len(), want.len(), at, cut(got), cut(want)))
}

fn sub_cv(i: u64) -> Cv {
    let mut b = [0; 32];
    b.copy_from_slice(&spec::fill(5000 + i, 32));
    spec::cv_from(&b)
}

pub fn check(_ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    match kind {
        // length, mode, output length, form of the input
        "py" => {
            let got = ask(a[3], a[1], content(a[0] as usize, 0), &[], a[2])?.unwrap();
            differ(&got, &root(a[0] as usize, 0, a[1]).out_bytes(a[2] as usize))
        }
        // content kind, length, mode
        "fill" => {
            let data: Vec<u8> = match a[0] {
                0 => vec![0; a[1] as usize],
                1 => vec![0xff; a[1] as usize],
                // one bit
                n => {
                    let mut v = vec![0; a[1] as usize];
                    let bit = n as usize - 2;
                    v[bit / 8] = 1 << (bit % 8);
                    v
                }
            };
            let got = ask(0, a[2], &data, &[], 32)?.unwrap();
            differ(&got, &spec::tree(&data, 0, &mode(a[2])).hash())
        }
        // mode, output length, tail length, chunks of every finished subtree
        "placed" => {
            let subs: Vec<(u64, Cv)> = a[3..].iter().enumerate().map(|(i, &n)| (n, sub_cv(i as u64))).collect();
            let tail = content(a[2] as usize, 1);
            let node = match tree_after(&subs, tail, &mode(a[0])) {
                Some(n) => n,
                None => panic!("harness: not a tree: {:?}", a),
            };
            let bytes: Vec<(u64, Cv)> = subs.iter().map(|s| (s.0 * CHUNK as u64, s.1)).collect();
            match ask(1, a[0], tail, &bytes, a[1])? {
                Some(got) => differ(&got, &node.out_bytes(a[1] as usize)),
                None => {
                    NOT_PLACED.store(true, Ordering::Relaxed);
                    Ok(())
                }
            }
        }
        _ => panic!("unknown case {}", kind),
    }
}

pub fn enumerate(ctx: &Ctx) {
    let mut cases: Vec<(&str, Vec<u64>)> = vec![];
    let modes = 1 + 2 * KEYS;
    // Every length over two chunks.
    for l in 0..=ctx.q(6300, 21_000u64) {
        cases.push(("py", vec![l, if ctx.quick() { l % 3 } else { l % modes }, 32, 0]));
    }
    // All modes and keys at every length where something changes.
    let mut lens = vec![0u64, 1, 2, 3, 4, 63, 64, 65, 127, 128, 129, 1024];
    for c in 1..=ctx.q(9, 20i64) {
        for d in [-1i64, 0, 1] {
            lens.push((c * CHUNK as i64 + d) as u64);
        }
    }
    for &l in &lens {
        for m in 0..modes {
            for form in [0, 2, OPTIMIZED] {
                cases.push(("py", vec![l, m, 64, form]));
            }
        }
    }
    // Tree shapes.
    for c in (1..=ctx.q(70, 130i64)).chain([127, 128, 129, 255, 256, 257, 300]) {
        for d in ctx.q(vec![-1i64, 0, 1], vec![-2049, -1, 0, 1, 63, 64, 65, 1024]) {
            let l = c * CHUNK as i64 + d;
            if l >= 0 {
                cases.push(("py", vec![l as u64, (c % 3) as u64, 32, 0]));
            }
        }
    }
    for l in (1..=ctx.q(16, 130u64)).flat_map(|c| [c * CHUNK as u64, c * CHUNK as u64 + 1]) {
        cases.push(("py", vec![l, l % 3, 32, OPTIMIZED]));
    }
    // Output lengths.
    for n in (0..=130u64).chain([511, 512, 513, 20_000]) {
        for (l, m) in [(0u64, 0u64), (65, 1), (2049, 2)] {
            cases.push(("py", vec![l, m, n, OPTIMIZED]));
        }
    }
    for n in (0..=ctx.q(260u64, 1100)).chain([511, 512, 513, 4095, 4096, 4097, 20_000, 70_001]) {
        for (l, m) in [(0u64, 0u64), (3, 0), (64, 1), (65, 2), (2048, 0), (2049, 0), (5000, 1)] {
            cases.push(("py", vec![l, m, n, 0]));
        }
    }
    // Contents: constant, and every single bit of two blocks.
    for l in [0u64, 1, 63, 64, 65, 2048, 2049, 4096] {
        for k in 0..2 {
            for m in 0..modes {
                cases.push(("fill", vec![k, l, m]));
            }
        }
    }
    for bit in 0..128 * 8 {
        cases.push(("fill", vec![2 + bit, 128, bit % 3]));
    }
    // Positions up to the longest message Python can measure, 2^63 - 1: the
    // first subtrees of the left-balanced tree are given, the rest is hashed.
    let tails: Vec<u64> = vec![1, 64, 2047, 2048, 2049, 3 * 2048, 5 * 2048 + 7];
    for e in 1..=51u32 {
        for low in [0u64, 1, 3] {
            let mut subs = vec![1u64 << e];
            if low & 1 != 0 && e > 22 {
                subs.push(1 << 21);
            }
            if low & 2 != 0 && e > 22 {
                subs.push(1 << 20);
            }
            if low != 0 && e <= 22 {
                continue;
            }
            for &t in &tails {
                let tc = (t + CHUNK as u64 - 1) / CHUNK as u64;
                if tc > *subs.last().unwrap() {
                    continue;
                }
                let m = (e as u64 + low) % 3;
                let mut a = vec![m, 96, t];
                a.extend(&subs);
                cases.push(("placed", a));
            }
        }
    }
    // Every subtree size pending at once.
    for top in 2..=51u32 {
        let mut a = vec![0, 32, 2000];
        a.extend((0..=top).rev().map(|k| 1u64 << k));
        cases.push(("placed", a));
    }
    ctx.par(cases.len(), |i| {
        let (kind, a) = &cases[i];
        ctx.case(kind, a);
    });
    for idle in &IDLE {
        idle.lock().unwrap().clear();
    }
    let n = CALLS.load(Ordering::Relaxed);
    ctx.cover(cases.len() as u64, n, n);
    ctx.sample("every length over three chunks, every tree shape to 70 chunks, every output length over four blocks");
    if NOT_PLACED.load(Ordering::Relaxed) {
        ctx.note("hash_recurse does not have the shape that finished subtrees can be substituted into: no messages beyond memory");
    } else {
        ctx.note("messages up to 2^63 bytes are hashed with the finished left subtrees replaced by given chaining values");
    }
    ctx.sample("a part of every kind again under python -O");
    ctx.note("each interpreter answers many calls, so results are also shown not to depend on earlier calls");
}
