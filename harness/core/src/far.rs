//! The same code on processors this machine does not have: other word sizes,
//! other byte orders, no SIMD at all. Miri executes it; what is expected is
//! computed here, from the specification.

#[path = "../../far/src/gen.rs"]
mod gen;

use crate::common::*;
use mcx::placed::{self, Form};
use mcx::spec::{self, tree, tree_after, Mode};
use mcx::{Ctx, Res};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

const TARGETS: [&str; 5] = [
    "s390x-unknown-linux-gnu",
    "i686-unknown-linux-gnu",
    "x86_64-unknown-linux-gnu",
    "aarch64-unknown-linux-gnu",
    "powerpc-unknown-linux-gnu",
];
const X86: [bool; 5] = [false, true, true, false, false];

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

static IDLE: [Mutex<Vec<Worker>>; 5] = [const { Mutex::new(Vec::new()) }; 5];

/// The flags and the directory the program was built with for a target.
fn built(t: usize) -> Option<(String, String)> {
    let all = std::env::var("MCX_FAR").ok()?;
    all.lines().find_map(|l| {
        let mut f = l.split('\t');
        if f.next() != Some(TARGETS[t]) {
            return None;
        }
        Some((f.next()?.to_string(), f.next()?.to_string()))
    })
}

fn worker(t: usize) -> Option<Worker> {
    if let Some(w) = IDLE[t].lock().unwrap().pop() {
        return Some(w);
    }
    let (flags, dir) = built(t)?;
    let verif = std::env::var("MCX_VERIF").unwrap_or("/verif".into());
    let mut child = Command::new("cargo")
        .args(["miri", "run", "-q", "--offline", "--target", TARGETS[t], "--target-dir", &dir])
        .current_dir(format!("{}/harness/far", verif))
        .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
        .env("RUSTFLAGS", flags)
        .env_remove("RUSTC_WRAPPER")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .ok()?;
    let to = child.stdin.take()?;
    let from = BufReader::new(child.stdout.take()?);
    Some(Worker { child, to, from })
}

enum Answer {
    Bytes(Vec<u8>),
    NotThere,
    Unsupported,
}

fn ask(t: usize, kind: &str, a: &[u64]) -> Result<Answer, String> {
    let mut w = match worker(t) {
        Some(w) => w,
        None => return Ok(Answer::Unsupported),
    };
    let text: Vec<String> = a.iter().map(|x| x.to_string()).collect();
    let line = format!("{} {}\n", kind, text.join(" "));
    let mut reply = String::new();
    let sent = w.to.write_all(line.as_bytes()).and_then(|_| w.to.flush());
    let got = sent.and_then(|_| w.from.read_line(&mut reply));
    if got.is_err() || !reply.ends_with('\n') {
        let mut why = String::new();
        let _ = w.child.stderr.take().map(|mut e| e.read_to_string(&mut why));
        // What the interpreter cannot do, or who ended it, says nothing.
        let undefined = why.contains("Undefined Behavior");
        let ended = ["abnormal termination", "memory allocation", "stack overflow", "exceeded"].iter().any(|x| why.contains(x));
        if !undefined && !ended {
            return Ok(Answer::Unsupported);
        }
        let from = why.find("error: ").unwrap_or(0);
        let brief: String = why[from..].chars().take(1200).collect();
        return Err(format!("on {}: {}", TARGETS[t], brief.replace('\n', " ")));
    }
    IDLE[t].lock().unwrap().push(w);
    let reply = reply.trim_end_matches('\n');
    if reply == "-" {
        return Ok(Answer::NotThere);
    }
    if let Some(p) = reply.strip_prefix("! ") {
        return Err(format!("on {}: {}", TARGETS[t], p));
    }
    let h = reply.strip_prefix("= ").ok_or_else(|| format!("on {}: answered {:?}", TARGETS[t], reply))?;
    let nibble = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    Ok(Answer::Bytes(h.as_bytes().chunks(2).map(|p| nibble(p[0]) << 4 | nibble(p[1])).collect()))
}

fn mode_of(m: u64) -> Mode {
    match m {
        0 => spec::mode_hash(),
        1 => spec::mode_keyed(&gen::key()),
        _ => spec::mode_derive(&gen::key()),
    }
}

fn blocks(k: u64, n: u64) -> usize {
    let len = match (k, n) {
        (64, 1) => 128,
        (64, 2) => 256,
        (_, 1) => 64,
        (_, 2) => 128,
        (64, _) => 2048,
        (_, 3) => 192,
        _ => 2048,
    };
    len
}

fn expected(kind: &str, a: &[u64]) -> Vec<u8> {
    let mut out = vec![];
    match kind {
        "hash" => {
            let root = tree(&gen::bytes(a[2], a[2] as usize), 0, &mode_of(a[1]));
            if a[3] == 0 {
                out.extend_from_slice(&root.hash());
            } else {
                for i in 0..a[3] {
                    out.extend_from_slice(&root.out(i));
                }
            }
        }
        "pieces" | "ref" => {
            let m = if kind == "ref" { a[0] } else { a[1] };
            let total: u64 = a[2..].iter().sum();
            let input = gen::bytes(total, total as usize);
            let mut at = 0;
            for &n in &a[2..] {
                at += n as usize;
                let root = tree(&input[..at], 0, &mode_of(m));
                out.extend_from_slice(&root.out_bytes(if kind == "ref" { a[1] as usize } else { 32 }));
            }
            if kind == "pieces" {
                out.extend_from_slice(&tree(&input, 0, &mode_of(m)).out(1));
            }
        }
        "placed" | "refplaced" => {
            let form = if a[3] == 1 + (a[2] - 1).count_ones() as u64 { Form::LastApart } else { Form::Merged };
            let subs: Vec<(u64, spec::Cv)> =
                placed::sizes(a[2], form).iter().enumerate().map(|(i, &s)| (s, spec::cv_from(&gen::array(9000 + i as u64)))).collect();
            let mut tail = vec![];
            for &n in &a[4..] {
                tail.extend_from_slice(&gen::bytes(n, n as usize));
                let root = tree_after(&subs, &tail, &mode_of(a[1])).expect("harness: placed subtrees fit the tree");
                out.extend_from_slice(&root.hash());
            }
        }
        "many" => {
            let len = blocks(a[0], a[1]);
            let k = gen::array::<32>(a[3] + 500);
            for i in 0..a[2] {
                let input = gen::bytes(a[3] + i, len);
                let pos = a[4].wrapping_add(i.wrapping_mul(a[5]));
                out.extend_from_slice(&mcx::kern::spec_many1(a[0] == 64, &input, &k, pos, [a[6] as u8, a[7] as u8, a[8] as u8]));
            }
        }
        "compress" => {
            let w64 = a[0] == 64;
            let k = gen::array::<32>(a[2] + 500);
            let block = gen::bytes(a[2], if w64 { 128 } else { 64 });
            out = mcx::kern::spec_compress(w64, a[1] != 0, &k, &block, a[3] as u8, a[4], a[5] as u8);
        }
        "copy" => {
            out.extend_from_slice(&a[1].to_le_bytes());
            out.extend_from_slice(&tree(&gen::bytes(a[1], a[1] as usize), 0, &mode_of(a[0])).hash());
        }
        "value" => {
            let b = gen::array::<32>(a[0]);
            let same = (a[1] >= 256) as u8;
            out.extend_from_slice(&[same, same]);
            out.extend_from_slice(&b);
            out.extend_from_slice(hex(&b).as_bytes());
        }
        _ => panic!("harness: unknown case"),
    }
    out
}

/// target, then the case's numbers
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    let t = a[0] as usize;
    let got = match ask(t, kind, &a[1..])? {
        Answer::Bytes(b) => b,
        Answer::NotThere => {
            ctx.add("not available there", 1);
            return Ok(());
        }
        Answer::Unsupported => {
            ctx.capped(format!("{} could not be interpreted", TARGETS[t]));
            return Ok(());
        }
    };
    let want = expected(kind, &a[1..]);
    if kind == "value" {
        let text = hex(&want[2..34]);
        let debug = String::from_utf8_lossy(&got[std::cmp::min(want.len(), got.len())..]).into_owned();
        if !got.starts_with(&want) || !debug.contains(&text) {
            return Err(format!("on {}: {} ({:?}) instead of {}", TARGETS[t], hex(&got), debug, hex(&want)));
        }
        return Ok(());
    }
    if got != want {
        let at = got.iter().zip(&want).position(|(g, w)| g != w).unwrap_or(0);
        let cut = |b: &[u8]| hex(&b[std::cmp::min(at, b.len())..std::cmp::min(b.len(), at + 32)]);
        return Err(format!("on {}: byte {} of the result: {} instead of {}", TARGETS[t], at, cut(&got), cut(&want)));
    }
    Ok(())
}

type Cases = Vec<(&'static str, Vec<u64>)>;

fn explore(ctx: &Ctx, targets: &[usize], cases: impl Fn(usize) -> Cases) {
    for &t in targets {
        if built(t).is_none() {
            ctx.capped(format!("{} could not be built for", TARGETS[t]));
            continue;
        }
        if let Ok(Answer::Bytes(b)) = ask(t, "about", &[]) {
            ctx.info(&format!("interpreted on {}", TARGETS[t]), String::from_utf8_lossy(&b));
        }
        // The longest first, so that the end is not waited for.
        let mut all = cases(t);
        all.sort_by_key(|(k, a)| std::cmp::Reverse(cost(k, a)));
        ctx.par(all.len(), |i| {
            let (kind, a) = &all[i];
            let mut args = vec![t as u64];
            args.extend_from_slice(a);
            ctx.case(kind, &args);
            ctx.cover(1, 1, 1);
        });
        ctx.add(&format!("cases on {}", TARGETS[t]), all.len() as u64);
        IDLE[t].lock().unwrap().clear();
    }
}

/// About how many compressions.
fn cost(kind: &str, a: &[u64]) -> u64 {
    match kind {
        "hash" => a[2] / 64 + a[3],
        "many" => a[2] * (blocks(a[0], a[1]) / 64) as u64,
        "copy" => a[1] / 64,
        "value" | "compress" => 1,
        _ => a[2..].iter().sum::<u64>() / 64,
    }
}

fn far(ctx: &Ctx) -> Vec<usize> {
    if ctx.quick() {
        vec![0, 1]
    } else {
        vec![0, 1, 2, 3, 4]
    }
}

/// Without the hook there is only what the processor picks.
fn backends(t: usize) -> Vec<u64> {
    if cfg!(not(baokeshed_verif)) {
        vec![0]
    } else if X86[t] {
        vec![1, 2, 3]
    } else {
        vec![1]
    }
}

pub fn c01(ctx: &Ctx) {
    explore(ctx, &far(ctx), |t| {
        let mut v: Cases = vec![];
        let mut lens = vec![0, 1, 3, 4, 31, 32, 63, 64, 65, 127, 128, 129, 1024, 2047, 2048, 2049, 2112, 4096, 4097];
        let long = [6144, 6145, 4 * 2048 + 1, 8 * 2048, 8 * 2048 + 1, 17 * 2048];
        if !ctx.quick() {
            lens.extend((0..=260).chain((0..=24).map(|n| 2048 + 128 * n)));
            lens.sort();
            lens.dedup();
        }
        for p in backends(t) {
            for &n in &lens {
                for m in 0..3 {
                    if m == 0 || n < 200 || n >= 2048 && !ctx.quick() || n == 2049 {
                        v.push(("hash", vec![p, m, n, 0]));
                    }
                }
            }
            for &n in &long {
                v.push(("hash", vec![p, 0, n, 0]));
            }
            if !ctx.quick() {
                v.extend((4..=33).map(|c| ("hash", vec![p, 1, c * 2048 + 5, 0])));
            }
        }
        v
    });
    ctx.sample("one-shot digests of every listed length on processors of other word sizes and byte orders, with every backend they have");
}

pub fn c02(ctx: &Ctx) {
    let ops = [1u64, 64, 65, 2048, 2049, 4097];
    explore(ctx, &far(ctx), |t| {
        let mut v: Cases = vec![];
        for p in backends(t) {
            for &a in &ops {
                v.push(("pieces", vec![p, 1, a, 0, 1]));
                for &b in &ops {
                    if a + b < 6000 || p == 1 || !ctx.quick() {
                        v.push(("pieces", vec![p, 0, a, b]));
                    }
                    if !ctx.quick() {
                        v.extend(ops.iter().map(|&c| ("pieces", vec![p, 2, a, b, c])));
                    }
                }
            }
            v.push(("pieces", vec![p, 2, 17, 5 * 2048]));
            v.push(("pieces", vec![p, 0, 2048 * 3, 2048 * 4 + 1, 0, 2048]));
        }
        v
    });
    ctx.sample(format!("every sequence of up to {} pieces of {:?} bytes, on other processors", ctx.q(2, 3), ops));
}

pub fn c03(ctx: &Ctx) {
    explore(ctx, &far(ctx), |t| {
        let mut v: Cases = vec![];
        for p in backends(t) {
            for n in [0, 1, 64, 65, 2048, 2049, 4097] {
                for m in 0..3 {
                    v.push(("hash", vec![p, m, n, ctx.q(6, 40)]));
                }
            }
        }
        v
    });
    ctx.sample("extended output read block by block, through clones too, on other processors");
}

fn kernels(ctx: &Ctx, ks: &[u64]) -> Cases {
    let mut v: Cases = vec![];
    let offsets = [0, 1, 0xffff_ffff, 0xffff_fffc, 1 << 32, 0x1234_5678_9abc_def0, 1 << 63, u64::MAX - 40];
    let mut seed = 0;
    let mut next = || {
        seed += 20;
        seed
    };
    for &k in ks {
        let full = if k == 64 { 128 } else { 64 };
        for len in [0, 1, full - 1, full] {
            for flags in [0, 1, 2, 4, 8, 16, 32, 64, 128, 255] {
                for xof in 0..2 {
                    v.push(("compress", vec![k, xof, next(), len, offsets[seed_pick(len, flags)], flags]));
                }
            }
        }
        for &o in &offsets {
            v.push(("compress", vec![k, 0, next(), full, o, 11]));
            v.push(("compress", vec![k, 1, next(), full, o, 11]));
        }
        let wide = ctx.q(9, 17);
        for n in 0..=wide {
            for delta in [0, 1] {
                for (i, &o) in offsets.iter().enumerate() {
                    if !ctx.quick() || (i as u64 + n) % 4 == 0 || n == 8 || n == 1 {
                        v.push(("many", vec![k, 1, n, next(), o, delta, 16, 1, 2]));
                    }
                }
            }
            v.push(("many", vec![k, 2, n, next(), 0xffff_fffd, 1, 0, 1, 2]));
        }
        if k != 64 {
            v.push(("many", vec![k, 3, 9, next(), 5, 1, 0, 1, 2]));
        }
        v.push(("many", vec![k, 32, if k == 1 || k == 64 { 2 } else { 9 }, next(), 0xffff_fffe, 1, 16, 1, 2]));
    }
    v
}

fn seed_pick(len: u64, flags: u64) -> usize {
    ((len + flags) % 8) as usize
}

pub fn c05(ctx: &Ctx) {
    explore(ctx, &far(ctx), |t| kernels(ctx, if X86[t] { &[1, 2, 3] } else { &[1] }));
    ctx.sample("every backend's kernels on other processors: block lengths, flags, offsets across 2^32, up to 9 inputs of 1, 2, 3 and 32 blocks");
}

pub fn c13(ctx: &Ctx) {
    explore(ctx, &far(ctx), |_| kernels(ctx, &[64]));
    ctx.sample("the portable kernels of the 64-bit variant on other processors");
}

/// Chunk counts for placed hashers.
fn counts(ctx: &Ctx) -> Vec<u64> {
    let mut counts = vec![];
    for k in [1u32, 16, 20, 21, 30, 31, 32, 33, 42, 52] {
        for n in [(1u64 << k) - 1, 1 << k, (1 << k) + 1] {
            counts.push(n);
        }
    }
    counts.push((1 << 53) - 2);
    if !ctx.quick() {
        counts.extend(placed::counts(false).into_iter().step_by(40));
    }
    counts.retain(|&n| n >= 2);
    counts.sort();
    counts.dedup();
    counts
}

fn placed_cases(ctx: &Ctx, kind: &'static str, p: u64, form: Form, v: &mut Cases) {
    for n in counts(ctx) {
        let subs = placed::sizes(n, form).len() as u64;
        v.push((kind, vec![p, 0, n, subs, 1]));
        if n + 1 < 1 << 53 && (p <= 1 || !ctx.quick() || n % 4 == 0) {
            v.push((kind, vec![p, n % 3, n, subs, 2049]));
        }
        if n + 2 < 1 << 53 && (n % 16 == 1 || !ctx.quick()) {
            v.push((kind, vec![p, n % 3, n, subs, 4097, 64]));
        }
    }
}

fn calibrated<T: placed::Place>(ctx: &Ctx, min_next: usize) -> Option<Form> {
    let form = mcx::run_caught_value(|| placed::calibrate::<T>(min_next)).flatten();
    if form.is_none() {
        ctx.note("placed states are not available on this tree");
    }
    form
}

pub fn c07(ctx: &Ctx) {
    let form = calibrated::<RustHasher>(ctx, 0);
    explore(ctx, &far(ctx), |t| {
        let mut v: Cases = vec![];
        for p in backends(t) {
            if let Some(form) = form {
                placed_cases(ctx, "placed", p, form, &mut v);
            }
        }
        v
    });
    ctx.sample(format!("updates from {} chunk counts up to 2^53-2, on other processors", counts(ctx).len()));
}

pub fn c08(ctx: &Ctx) {
    explore(ctx, &far(ctx), |_| {
        let mut v: Cases = vec![];
        for n in [0, 1, 64, 2048, 2049, 4097] {
            for piece in [1 + n / 7, n + 1] {
                v.push(("copy", vec![n % 3, n, piece]));
            }
        }
        if !ctx.quick() {
            v.extend([("copy", vec![0, 65536, 65536]), ("copy", vec![0, 65537, 70000]), ("copy", vec![0, 70001, 4099])]);
        }
        v
    });
    ctx.sample("copies into a hasher, on other processors");
}

pub fn c14(ctx: &Ctx) {
    explore(ctx, if ctx.quick() { &[2, 1] } else { &[2, 1, 0] }, |t| {
        let mut v: Cases = vec![];
        for &k in if X86[t] { &[1, 2, 3, 64][..] } else { &[1, 64] } {
            for n in 0..=9 {
                v.push(("many", vec![k, 1, n, 20 * n, 7, 1, 0, 1, 2]));
                v.push(("many", vec![k, 2, n, 20 * n, 7, 0, 0, 1, 2]));
            }
            v.push(("many", vec![k, 32, ctx.q(if k == 2 { 4 } else if k == 3 { 8 } else { 1 }, 17), 3, 7, 1, 0, 1, 2]));
            for len in [0, 1, 63, 64] {
                v.push(("compress", vec![k, 0, len, len, 1, 3]));
                v.push(("compress", vec![k, 1, len, len, 1, 3]));
            }
        }
        for p in backends(t) {
            for n in [0, 1, 63, 64, 65, 127, 129, 2047, 2048, 2049, 4095, 4097, 8 * 2048 + 1] {
                v.push(("hash", vec![p, n % 3, n, 0]));
                v.push(("pieces", vec![p, n % 3, n / 3, n - n / 3]));
            }
        }
        for n in [0, 1, 65, 2049, 4097] {
            v.push(("ref", vec![0, 65, n]));
        }
        v
    });
    ctx.sample("every input and output an allocation of its own, of exactly its size, with every access checked against its bounds and for having been initialised");
}

pub fn c15(ctx: &Ctx) {
    explore(ctx, &far(ctx), |_| {
        (0..ctx.q(2, 8)).flat_map(|s| (0..=256).map(move |b| ("value", vec![s, b]))).collect()
    });
    ctx.sample("values equal and different in every single bit, on other processors");
}

pub fn c17(ctx: &Ctx) {
    let ops = [0u64, 1, 64, 2048, 2049];
    let form = calibrated::<crate::c17::Ref>(ctx, 1);
    explore(ctx, &far(ctx), |_| {
        let mut v: Cases = vec![];
        for m in 0..3 {
            for n in [0, 1, 3, 31, 32, 63, 64, 65, 129, 2047, 2048, 2049, 4096, 4097, 6145, 8193] {
                v.push(("ref", vec![m, if m == 0 { 33 } else { 131 }, n]));
            }
        }
        for &a in &ops {
            for &b in &ops {
                v.push(("ref", vec![0, 32, a, b]));
                if !ctx.quick() {
                    v.extend(ops.iter().map(|&c| ("ref", vec![1, 32, a, b, c])));
                }
            }
        }
        v.extend([5, 7, 9].map(|c| ("ref", vec![0, 64, c * 2048 + 1])));
        if let Some(form) = form {
            placed_cases(ctx, "refplaced", 0, form, &mut v);
        }
        v
    });
    ctx.sample("the reference implementation on other processors");
}
