//! copy_wide under every sequence of reader and writer answers.

use crate::common::*;
use baokeshed::copy::{copy_wide, WIDE_BUF_LEN};
use mcx::spec;
use mcx::{Ctx, Res};
use std::io::{self, ErrorKind, Read, Write};

// Reader answers.
const R_FULL: u64 = 0;
const R_ONE: u64 = 1;
const R_ALMOST: u64 = 2;
const R_ODD: u64 = 3;
const R_EOF: u64 = 4;
/// One byte, with rubbish behind it in the buffer.
const R_MESSY: u64 = 5;
const INTR: u64 = 10; // +0 simple, +1 from the OS, +2 custom payload
const ERR: u64 = 20; // + kind index
// Writer answers.
const W_ALL: u64 = 0;
const W_ONE: u64 = 1;
const W_HALF: u64 = 2;
const W_ALMOST: u64 = 3;
const W_ZERO: u64 = 4;

const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::WriteZero,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
];

#[derive(Debug)]
struct Tag(u64);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "tag {}", self.0)
    }
}
impl std::error::Error for Tag {}

fn interruption(code: u64) -> io::Error {
    match code - INTR {
        0 => ErrorKind::Interrupted.into(),
        1 => io::Error::from_raw_os_error(libc::EINTR),
        _ => io::Error::new(ErrorKind::Interrupted, Tag(99)),
    }
}

fn failure(code: u64, tag: u64) -> io::Error {
    io::Error::new(KINDS[(code - ERR) as usize], Tag(tag))
}

struct Reader<'a> {
    script: &'a [u64],
    stream: &'a [u8],
    pos: usize,
    /// How the reader has ended: true for end of input.
    ended: Option<bool>,
    after_end: bool,
}

impl<'a> Read for Reader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.ended.is_some() {
            self.after_end = true;
            return Ok(0);
        }
        let code = match self.script.split_first() {
            Some((c, rest)) => {
                self.script = rest;
                *c
            }
            None => R_EOF,
        };
        if code >= ERR {
            self.ended = Some(false);
            return Err(failure(code, 1));
        }
        if code >= INTR {
            return Err(interruption(code));
        }
        let want = match code {
            R_FULL => buf.len(),
            R_ONE => 1,
            R_MESSY => {
                buf.iter_mut().for_each(|b| *b = 0xdb);
                1
            }
            R_ALMOST => buf.len().saturating_sub(1),
            R_ODD => 63,
            _ => 0,
        };
        let n = std::cmp::min(want, buf.len());
        if n == 0 && code == R_EOF {
            self.ended = Some(true);
            return Ok(0);
        }
        buf[..n].copy_from_slice(&self.stream[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Writer<'a> {
    script: &'a [u64],
    stream: &'a [u8],
    pos: usize,
    wrong: Option<usize>,
    /// A fatal answer was given: Some(true) for Ok(0).
    failed: Option<bool>,
    after_failure: bool,
}

impl<'a> Write for Writer<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            self.after_failure = true;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let code = match self.script.split_first() {
            Some((c, rest)) => {
                self.script = rest;
                *c
            }
            None => W_ALL,
        };
        if code >= ERR {
            self.failed = Some(false);
            return Err(failure(code, 2));
        }
        if code >= INTR {
            return Err(interruption(code));
        }
        let n = match code {
            W_ALL => buf.len(),
            W_ONE => 1,
            W_HALF => (buf.len() + 1) / 2,
            W_ALMOST => std::cmp::max(1, buf.len() - 1),
            _ => 0,
        };
        if n == 0 {
            self.failed = Some(true);
            return Ok(0);
        }
        if self.wrong.is_none() && self.stream.get(self.pos..self.pos + n) != Some(&buf[..n]) {
            self.wrong = Some(self.pos);
        }
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn tag_of(e: &io::Error) -> Option<u64> {
    e.get_ref().and_then(|r| r.downcast_ref::<Tag>()).map(|t| t.0)
}

fn run(stream: &[u8], rs: &[u64], ws: &[u64], dynamic: bool) -> Res {
    let mut r = Reader { script: rs, stream, pos: 0, ended: None, after_end: false };
    let mut w = Writer { script: ws, stream, pos: 0, wrong: None, failed: None, after_failure: false };
    let result = if dynamic {
        let (dr, dw): (&mut dyn Read, &mut dyn Write) = (&mut r, &mut w);
        copy_wide(dr, dw)
    } else {
        copy_wide(&mut r, &mut w)
    };
    if let Some(p) = w.wrong {
        return Err(format!("the writer was given other bytes than the reader produced, from position {}", p));
    }
    if w.pos > r.pos {
        return Err(format!("the writer got {} bytes, the reader produced {}", w.pos, r.pos));
    }
    if r.after_end {
        return Err("the reader was called again after it ended".into());
    }
    if w.after_failure {
        return Err("the writer was called again after it failed".into());
    }
    match (result, w.failed, r.ended) {
        (Ok(n), None, Some(true)) => {
            if w.pos != r.pos || n != r.pos as u64 {
                return Err(format!("returned {} after {} bytes were read and {} written", n, r.pos, w.pos));
            }
            Ok(())
        }
        (Ok(n), _, _) => Err(format!("returned Ok({}) although the copy did not complete (reader ended: {:?}, writer failed: {:?})", n, r.ended, w.failed)),
        (Err(e), Some(true), _) => {
            if e.kind() != ErrorKind::WriteZero {
                return Err(format!("a writer that accepts nothing gave {:?}", e));
            }
            Ok(())
        }
        (Err(e), Some(false), _) => {
            if tag_of(&e) != Some(2) {
                return Err(format!("the writer's error was replaced by {:?}", e));
            }
            Ok(())
        }
        (Err(e), None, Some(false)) => {
            if tag_of(&e) != Some(1) {
                return Err(format!("the reader's error was replaced by {:?}", e));
            }
            if w.pos != r.pos {
                return Err(format!("{} bytes were read before the reader failed, {} written", r.pos, w.pos));
            }
            Ok(())
        }
        (Err(e), None, _) => Err(format!("failed with {:?} although neither side did", e)),
    }
}

thread_local!(static STREAM: std::cell::RefCell<Vec<u8>> = Default::default());

/// A reader and a writer that copy something themselves at every call.
struct Nest<'a> {
    depth: u64,
    left: &'a [u8],
    piece: usize,
    taken: Vec<u8>,
    wrong: Option<String>,
}

impl Nest<'_> {
    fn inner(&mut self) {
        if self.depth > 0 {
            if let Err(e) = nested(self.depth - 1, self.piece + 1) {
                self.wrong = Some(e);
            }
        }
    }
}

impl Read for Nest<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.piece.min(self.left.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.left[..n]);
        self.left = &self.left[n..];
        self.inner();
        Ok(n)
    }
}

impl Write for Nest<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.inner();
        let n = self.piece.min(buf.len());
        self.taken.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn nested(depth: u64, piece: usize) -> Res {
    let data = spec::fill(40 + depth, piece * 3 + 1);
    let mut r = Nest { depth, left: &data, piece: 2 * piece, taken: vec![], wrong: None };
    let mut w = Nest { depth, left: &[], piece, taken: vec![], wrong: None };
    let n = copy_wide(&mut r, &mut w).map_err(|e| format!("a copy {} levels above the innermost failed: {}", depth, e))?;
    if let Some(e) = r.wrong.or(w.wrong) {
        return Err(e);
    }
    if n != data.len() as u64 || w.taken != data {
        return Err(format!("a copy {} levels above the innermost returned {} for {} bytes, {} of them delivered", depth, n, data.len(), w.taken.len()));
    }
    Ok(())
}

/// A copy that a panicking reader (0) or writer (1) ends leaves later ones
/// as they are.
fn after_panic(side: u64) -> Res {
    struct Bomb;
    impl Read for Bomb {
        fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
            std::panic::resume_unwind(Box::new(()))
        }
    }
    impl Write for Bomb {
        fn write(&mut self, _: &[u8]) -> io::Result<usize> {
            std::panic::resume_unwind(Box::new(()))
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    for _ in 0..3 {
        let r = std::panic::catch_unwind(|| match side {
            0 => copy_wide(&mut Bomb, &mut io::sink()),
            _ => copy_wide(&mut &[7u8; 100][..], &mut Bomb),
        });
        if r.is_ok() {
            return Err("a panic was swallowed".into());
        }
        nested(1, 50)?;
    }
    Ok(())
}

fn stream(ctx: &Ctx, n: usize) -> Vec<u8> {
    content(ctx.seed, 0, n * (1 << 16) + (1 << 16))
}

/// script: dynamic nr r... w...
/// hash: backend mode reads kind    into a Hasher
/// long: total
/// intr: n                          n interruptions in a row, each side
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    match kind {
        "script" => {
            let nr = a[1] as usize;
            run(&stream(ctx, nr), &a[2..2 + nr], &a[2 + nr..], a[0] == 1)
        }
        "intr" => {
            let mut s: Vec<u64> = (0..a[0]).map(|i| INTR + i % 3).collect();
            s.push(R_FULL);
            let mut w = s.clone();
            w.push(W_HALF);
            run(&stream(ctx, 1), &s, &w, false)
        }
        // answer, how often, another answer, answer, how often
        "runs" => {
            let side = a[0];
            let mut s = vec![a[1]; a[2] as usize];
            s.push(a[3]);
            s.extend(vec![a[4]; a[5] as usize]);
            let filler: Vec<u64> = vec![R_FULL; if side == 0 { 0 } else { 3 }];
            STREAM.with(|st| {
                let mut st = st.borrow_mut();
                let most = |&x: &u64| if side == 1 || x == R_ONE || x >= INTR { 1 } else { 1 << 16 };
                let need = s.iter().map(most).sum::<usize>() + (8 << 16);
                if st.len() < need {
                    *st = content(ctx.seed, 0, need);
                }
                if side == 0 {
                    run(&st, &s, &[], false)
                } else {
                    run(&st, &filler, &s, false)
                }
            })
        }
        // depth, piece
        "nested" => nested(a[0], a[1] as usize),
        "panic" => after_panic(a[0]),
        "hash" => {
            force(a[0]);
            let data = content(ctx.seed, 0, (a[2] as usize + 1) * (1 << 16));
            let script = vec![a[3]; a[2] as usize];
            let mut r = Reader { script: &script, stream: &data, pos: 0, ended: None, after_end: false };
            let mut h = hasher(a[1]);
            let n = copy_wide(&mut r, &mut h).map_err(|e| format!("copy into a hasher failed: {}", e))?;
            if n != r.pos as u64 {
                return Err(format!("returned {} for {} bytes", n, r.pos));
            }
            let want = spec::tree(&data[..r.pos], 0, &mode(a[1]));
            eq("digest after copy", h.finalize().as_bytes(), &want.hash())
        }
        "long" => {
            struct Zeros(u64);
            impl Read for Zeros {
                fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    let n = std::cmp::min(self.0, buf.len() as u64);
                    self.0 -= n;
                    Ok(n as usize)
                }
            }
            struct Count(u64);
            impl Write for Count {
                fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
                    self.0 += buf.len() as u64;
                    Ok(buf.len())
                }
                fn flush(&mut self) -> io::Result<()> {
                    Ok(())
                }
            }
            let mut w = Count(0);
            let n = copy_wide(&mut Zeros(a[0]), &mut w).map_err(|e| format!("{}", e))?;
            if n != a[0] || w.0 != a[0] {
                return Err(format!("copy of {} bytes returned {} and wrote {}", a[0], n, w.0));
            }
            Ok(())
        }
        _ => panic!("harness: unknown case"),
    }
}

/// All scripts of up to `depth` non-final answers, each followed by every
/// final one (or nothing: then the default answer repeats).
fn scripts(inner: &[u64], finals: &[u64], depth: usize) -> Vec<Vec<u64>> {
    let mut all = Vec::new();
    let mut level = vec![vec![]];
    for d in 0..=depth {
        let mut next = Vec::new();
        for s in &level {
            all.push(s.clone());
            for f in finals {
                let mut t: Vec<u64> = s.clone();
                t.push(*f);
                all.push(t);
            }
            if d < depth {
                for i in inner {
                    let mut t = s.clone();
                    t.push(*i);
                    next.push(t);
                }
            }
        }
        level = next;
    }
    all
}

pub fn enumerate(ctx: &Ctx) {
    let cross = |rs: Vec<Vec<u64>>, ws: Vec<Vec<u64>>, dynamic: bool| {
        let longest = rs.iter().map(|r| r.len()).max().unwrap();
        let st = stream(ctx, longest);
        ctx.par(rs.len(), |i| {
            let r = &rs[i];
            let (mut n, mut answers) = (0, 0);
            for w in &ws {
                let mut args = vec![dynamic as u64, r.len() as u64];
                args.extend_from_slice(r);
                args.extend_from_slice(w);
                if !ctx.guard("script", &args, || run(&st, r, w, dynamic)) {
                    return;
                }
                n += 1;
                answers += (r.len() + w.len()) as u64;
            }
            ctx.cover(n, answers, n);
        });
    };
    // Deep on the reader, shallow on the writer, and the reverse.
    let r_inner = [R_FULL, R_ONE, R_ALMOST, INTR];
    let r_finals = [ERR, ERR + 2];
    let w_inner = [W_ALL, W_ONE, W_HALF, INTR];
    let w_finals = [W_ZERO, ERR];
    cross(scripts(&r_inner, &r_finals, ctx.q(6, 8)), scripts(&w_inner, &w_finals, 3), false);
    cross(scripts(&r_inner, &r_finals, 3), scripts(&w_inner, &w_finals, ctx.q(6, 8)), false);
    // Every answer there is, to a smaller depth.
    let all_errs: Vec<u64> = (0..KINDS.len() as u64).map(|k| ERR + k).collect();
    let mut w_all = all_errs.clone();
    w_all.push(W_ZERO);
    let r_all = [R_FULL, R_ONE, R_ALMOST, R_ODD, R_MESSY, INTR, INTR + 1, INTR + 2];
    let w_in = [W_ALL, W_ONE, W_HALF, W_ALMOST, INTR, INTR + 1, INTR + 2];
    let d = ctx.q(2, 3);
    cross(scripts(&r_all, &all_errs, d), scripts(&w_in, &w_all, d), false);
    cross(scripts(&r_all, &all_errs, d), scripts(&w_in, &w_all, 1), true);
    // Many interruptions in a row.
    for n in [10u64, 1000, 100_000] {
        ctx.case("intr", &[n]);
        ctx.cover(1, n, 1);
    }
    // Long runs of one answer with another in between.
    let mut runs: Vec<Vec<u64>> = vec![];
    for n in (0..ctx.q(40, 200u64)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        for (x, y) in [(R_ONE, R_FULL), (R_FULL, R_ONE), (R_ALMOST, R_MESSY), (R_ODD, R_ALMOST), (R_FULL, INTR), (R_ONE, INTR)] {
            runs.push(vec![0, x, n, y, x, 3]);
            runs.push(vec![0, x, n, y, R_FULL, 2]);
        }
        for e in [ERR, ERR + 2] {
            for x in [R_ONE, R_FULL] {
                runs.push(vec![0, x, n, e, x, 0]);
            }
        }
        for (x, y) in [(W_ONE, W_ALL), (W_ONE, INTR), (W_ONE, ERR), (W_ONE, W_ZERO), (W_ONE, W_HALF)] {
            runs.push(vec![1, x, n, y, x, 3]);
        }
    }
    for n in [1000u64, 32_768, 65_535, 65_536, 65_537] {
        runs.push(vec![0, R_ONE, n, R_FULL, R_ONE, 3]);
        runs.push(vec![0, R_ONE, n, INTR, R_FULL, 2]);
        runs.push(vec![1, W_ONE, n, W_ALL, W_ONE, 3]);
    }
    ctx.par(runs.len(), |i| {
        ctx.case("runs", &runs[i]);
        ctx.cover(1, runs[i][2], 1);
    });
    // Readers and writers that copy themselves, or panic.
    for depth in 0..=ctx.q(2, 3) {
        for piece in [1, 100, 5000, 20_000] {
            ctx.case("nested", &[depth, piece]);
            ctx.cover(1, 1, 1);
        }
    }
    for side in 0..2 {
        ctx.case("panic", &[side]);
        ctx.cover(1, 1, 1);
    }
    // Into a real hasher.
    for p in platforms() {
        for m in 0..3 {
            for reads in 0..12u64 {
                for k in [R_FULL, R_ONE, R_ALMOST, R_ODD, R_MESSY] {
                    ctx.case("hash", &[p, m, reads, k]);
                    ctx.cover(1, reads, 1);
                }
            }
        }
    }
    // Totals past 32 bits.
    for total in [(1u64 << 32) - 1, (1 << 32) + 5, ctx.q(5 << 30, 1 << 36)] {
        ctx.case("long", &[total]);
        ctx.cover(1, total / WIDE_BUF_LEN as u64, 1);
    }
    ctx.sample("answers: reads full, 1, almost full, 63 bytes, interrupted three ways, 12 error kinds, end; writes all, 1, half, almost all, none, interrupted three ways, 12 error kinds");
    ctx.note("the writer implements write only, so write_all is the standard library's default");
}
