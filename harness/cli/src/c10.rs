//! The tool under faults and malformed usage.

use crate::run::*;
use mcx::spec::hex;
use mcx::{Ctx, Res};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::sync::atomic::Ordering;

// Kinds of input.
const OK: u64 = 0;
const EMPTY: u64 = 1;
const MISSING: u64 = 2;
const DIRECTORY: u64 = 3;
const STREAM: u64 = 4;
const OPEN: u64 = 5;
const STAT: u64 = 6;
const MAP: u64 = 7;
const READ1: u64 = 8;
const READ2: u64 = 9;
const READ3: u64 = 10;
const LOOP: u64 = 11;
const STDIN: u64 = 12;
const STDIN_READ1: u64 = 13;
const STDIN_READ2: u64 = 14;
const KINDS: u64 = 15;
const NAMES: [&str; KINDS as usize] = [
    "mapped file", "empty file", "missing file", "directory", "streamed file", "open fails", "stat fails", "map fails",
    "1st read fails", "2nd read fails", "read after the last byte fails", "symlink loop", "standard input",
    "standard input, 1st read fails", "standard input, 2nd read fails",
];

const STDIN_LEN: usize = 3000;

fn default_errno(kind: u64) -> u64 {
    (match kind {
        OPEN => libc::EACCES,
        STAT => libc::EIO,
        MAP => libc::ENODEV,
        _ => libc::EIO,
    }) as u64
}

struct Entry {
    arg: OsString,
    env: Option<String>,
    len: usize,
}

fn entry(kind: u64, slot: usize, errno: u64) -> Entry {
    let tag = format!("k{}x{}", kind, slot);
    let plain = |len: usize| file(len, slot, &tag);
    let e = |path: PathBuf, len: usize, answers: String| Entry {
        env: if answers.is_empty() { None } else { Some(format!("{}={}", ident(&path), answers)) },
        arg: path.into_os_string(),
        len,
    };
    match kind {
        OK => e(plain(5000), 5000, "".into()),
        EMPTY => e(plain(0), 0, "".into()),
        MISSING => Entry { arg: scratch().join(format!("missing{}", slot)).into_os_string(), env: None, len: 0 },
        DIRECTORY => {
            let p = scratch().join(format!("dir{}", slot));
            let _ = std::fs::create_dir(&p);
            e(p, 0, "".into())
        }
        STREAM => e(plain(6000), 6000, "F".into()),
        OPEN => e(plain(100), 100, format!("o{}", errno)),
        STAT => e(plain(100), 100, format!("s{}", errno)),
        MAP => e(plain(100), 100, format!("m{}", errno)),
        READ1 => e(plain(100), 100, format!("F,e{}", errno)),
        READ2 => e(plain(5000), 5000, format!("F,r2048,e{}", errno)),
        READ3 => e(plain(100), 100, format!("F,p,e{}", errno)),
        LOOP => {
            let p = scratch().join(format!("loop{}", slot));
            let _ = std::os::unix::fs::symlink(&p, &p);
            Entry { arg: p.into_os_string(), env: None, len: 0 }
        }
        STDIN => Entry { arg: "-".into(), env: None, len: STDIN_LEN },
        STDIN_READ1 => Entry { arg: "-".into(), env: Some(format!("0=e{}", errno)), len: STDIN_LEN },
        STDIN_READ2 => Entry { arg: "-".into(), env: Some(format!("0=r1000,e{}", errno)), len: STDIN_LEN },
        _ => unreachable!(),
    }
}

fn is_digest_line(l: &[u8], digits: usize) -> bool {
    l.len() >= digits
        && l[..digits].iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c))
        && (l.len() == digits || l[digits..].starts_with(b"  "))
}

fn hex_run(l: &[u8]) -> usize {
    let (mut run, mut most) = (0, 0);
    for &c in l {
        run = if c.is_ascii_hexdigit() { run + 1 } else { 0 };
        most = std::cmp::max(most, run);
    }
    most
}

/// A list of inputs, some of which fail. `implicit`: no argument, only
/// standard input.
fn list(kinds: &[u64], m: u64, errno: Option<u64>, implicit: bool) -> Res {
    let mut args: Vec<OsString> = mode_args(m);
    let mut env = vec![];
    let mut entries = vec![];
    for (slot, &k) in kinds.iter().enumerate() {
        let e = entry(k, slot, errno.unwrap_or(default_errno(k)));
        if let Some(s) = &e.env {
            env.push((slot, s.clone()));
        }
        if !implicit {
            args.push(e.arg.clone());
        }
        entries.push(e);
    }
    let stdin = if kinds.iter().any(|&k| k >= STDIN) {
        Input::File(file(STDIN_LEN, 77, "stdin"))
    } else {
        Input::Null
    };
    let mut run = Run::new(args, stdin);
    run.env = env.iter().map(|e| e.1.clone()).collect::<Vec<_>>().join(";");
    let o = run.go()?;
    // Which inputs failed is what the environment answered, not what was
    // planned: a tool that never asked was never refused.
    let delivered = |slot: usize, what: &str| {
        env.iter().position(|e| e.0 == slot).map_or(false, |i| {
            o.log.iter().any(|l| l.starts_with(&format!("{} {} ", i, what)))
        })
    };
    let mut want: Vec<Vec<u8>> = vec![];
    let mut may: Vec<bool> = vec![];
    let mut failed: Vec<(usize, bool)> = vec![];
    for (slot, &k) in kinds.iter().enumerate() {
        let (fails, either) = match k {
            OK | EMPTY | STREAM | STDIN => (false, false),
            MISSING | DIRECTORY | LOOP => (true, false),
            OPEN => (delivered(slot, "open"), false),
            // Whether the length is needed is the tool's business.
            STAT => (false, delivered(slot, "stat")),
            MAP => (delivered(slot, "map"), false),
            _ => (delivered(slot, "read"), false),
        };
        if fails {
            failed.push((slot, true));
            continue;
        }
        if either {
            failed.push((slot, false));
        }
        let e = &entries[slot];
        let content_no = if k >= STDIN { 77 } else { slot };
        let mut line = hex(&root(e.len, content_no, m).hash()).into_bytes();
        if kinds.len() > 1 {
            line.extend_from_slice(b"  ");
            line.extend_from_slice(&e.arg.clone().into_vec());
        }
        want.push(line);
        may.push(either);
    }
    let fail = |why: String| -> Res {
        let names: Vec<&str> = kinds.iter().map(|&k| NAMES[k as usize]).collect();
        Err(format!("{}: inputs {:?}: {}", why, names, o.told()))
    };
    if !o.out.is_empty() && o.out.last() != Some(&b'\n') {
        return fail("the output ends inside a line".into());
    }
    let lines: Vec<&[u8]> = o.out.split(|&b| b == b'\n').collect();
    let lines = &lines[..lines.len() - 1];
    let errors: Vec<&[u8]> = o.err.split(|&b| b == b'\n').collect();
    let (digests, other): (Vec<&[u8]>, Vec<&[u8]>) = lines.iter().partition(|l| is_digest_line(l, 64));
    let mut at = 0;
    let mut doubtful_failed = false;
    for (w, &either) in want.iter().zip(&may) {
        if at < digests.len() && digests[at] == &w[..] {
            at += 1;
        } else if either {
            doubtful_failed = true;
        } else {
            return fail(format!("missing or wrong: {}", String::from_utf8_lossy(w)));
        }
    }
    if at != digests.len() {
        return fail(format!("unexpected digest: {}", String::from_utf8_lossy(digests[at])));
    }
    for l in other.iter().chain(&errors) {
        if hex_run(l) >= 32 {
            return fail("part of a digest outside a digest line".into());
        }
    }
    for (slot, certain) in &failed {
        let name = entries[*slot].arg.clone().into_vec();
        let told = other.iter().chain(&errors).any(|l| {
            if implicit {
                !l.is_empty()
            } else {
                l.windows(name.len()).any(|w| w == &name[..])
            }
        });
        if *certain && !told {
            return fail(format!("no line about the failure of {}", String::from_utf8_lossy(&name)));
        }
    }
    let any = failed.iter().any(|f| f.1) || doubtful_failed;
    match o.code {
        None => fail("ended by a signal".into()),
        Some(0) if any => fail("an input failed, but the exit status is 0".into()),
        Some(c) if c != 0 && !any => fail("nothing failed".into()),
        _ => Ok(()),
    }
}

/// Usage that must be refused before anything is printed as a digest.
fn refused(args: Vec<OsString>) -> Res {
    let o = Run::new(args.clone(), Input::Pipe(b"abc")).go()?;
    // The tool may quote what it refuses.
    let mut out = o.out.clone();
    for a in &args {
        let a = a.clone().into_vec();
        if a.is_empty() {
            continue;
        }
        while let Some(at) = out.windows(a.len()).position(|w| w == &a[..]).filter(|_| a != b"?") {
            out.splice(at..at + a.len(), std::iter::once(b'?'));
        }
    }
    let bad = o.code == Some(0)
        || o.code.is_none()
        || out.split(|&b| b == b'\n').any(|l| is_digest_line(l, 32) || hex_run(l) >= 32);
    if bad {
        return Err(format!("{:?} must be refused: {}", args, o.told()));
    }
    Ok(())
}

fn accepted(args: Vec<OsString>, m: u64) -> Res {
    let o = Run::new(args, Input::Pipe(content(3, 0))).go()?;
    same(&o, format!("{}\n", hex(&root(3, 0, m).hash())).as_bytes())
}

fn opt(which: u64) -> &'static str {
    ["--key", "--derive-key"][which as usize]
}

const BAD_LENGTHS: [&str; 26] = [
    "", " ", "-1", "abc", "1.5", "18446744073709551616", "99999999999999999999999999", "0x10", "1e3", " 5", "5 ", "5x",
    "--", "5,0", "5_0", "\u{0665}", "1/2", "5\u{b}", "\t", "+", "-", "340282366920938463463374607431768211461", "inf", "NaN", "1 2", "0b1",
];

pub fn check(_ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    match kind {
        // mode, kinds of the inputs
        "list" => list(&a[1..], a[0], None, false),
        // errno, kinds
        "errno" => list(&a[1..], 0, Some(a[0]), false),
        // errno, kind of standard input
        "stdin" => list(&a[1..], 0, Some(a[0]), true),
        "stdin_dir" => {
            let dir = scratch().join("stdin_dir");
            let _ = std::fs::create_dir(&dir);
            let args = if a[0] == 0 { vec![] } else { vec!["-".into()] };
            let o = Run::new(args, Input::File(dir)).go()?;
            if o.code == Some(0) || o.code.is_none() || hex_run(&o.out) >= 32 {
                return Err(format!("standard input is a directory: {}", o.told()));
            }
            Ok(())
        }
        // option, number of hex digits, upper case?
        "keylen" => {
            let digits: String = (0..a[1]).map(|i| b"0123456789abcdef"[(i * 7 % 16) as usize] as char).collect();
            let digits = if a[2] != 0 { digits.to_uppercase() } else { digits };
            refused(vec![format!("{}={}", opt(a[0]), digits).into()])
        }
        // option, position, byte
        "keychar" => {
            let mut k = hex(&key(0)).into_bytes();
            if a[2] < 0x80 {
                k[a[1] as usize] = a[2] as u8;
            } else {
                let c = char::from_u32(a[2] as u32).unwrap().to_string();
                k.splice(a[1] as usize..a[1] as usize + 1, c.bytes());
            }
            refused(vec![[opt(a[0]).as_bytes(), b"=", &k[..]].concat().pipe()])
        }
        // option, where a byte is added, byte
        "keyadd" => {
            let mut k = hex(&key(0)).into_bytes();
            k.insert(a[1] as usize, a[2] as u8);
            refused(vec![[opt(a[0]).as_bytes(), b"=", &k[..]].concat().pipe()])
        }
        // option, where the newline is: with a file to hash
        "newline" => {
            let name = ["--key", "--derive-key", "--length"][a[0] as usize];
            let mut v = if a[0] == 2 { b"10".to_vec() } else { hex(&key(0)).into_bytes() };
            let at = [0, v.len() / 2, v.len()][a[1] as usize];
            v.insert(at, b'\n');
            refused(vec![[name.as_bytes(), b"=", &v[..]].concat().pipe(), file(100, 0, "nl").into_os_string()])
        }
        // order and kinds of the two keys
        "both" => {
            let one = format!("{}={}", opt(a[0]), hex(&key(a[1]))).into();
            let two = format!("{}={}", opt(1 - a[0]), hex(&key(a[2]))).into();
            let mut args: Vec<OsString> = vec![one, two];
            if a[3] != 0 {
                args.insert(a[3] as usize - 1, file(100, 0, "both").into_os_string());
            }
            refused(args)
        }
        "keyok" => {
            let m = a[0];
            accepted(mode_args(m), m)
        }
        "length" => {
            let l = BAD_LENGTHS[a[0] as usize];
            let mut args: Vec<OsString> = if a[1] & 1 == 0 {
                vec![format!("--length={}", l).into()]
            } else {
                vec!["--length".into(), l.into()]
            };
            if a[1] & 2 != 0 {
                args.push(file(100, 0, "len").into_os_string());
            }
            refused(args)
        }
        "unknown" => {
            let args: [&[&str]; 6] = [&["--bogus"], &["-x"], &["--length"], &["--key"], &["--derive-key"], &["--keyed=00"]];
            refused(args[a[0] as usize].iter().map(|s| s.into()).collect())
        }
        // output length, number of inputs: standard output is full
        "full" => {
            let mut args: Vec<OsString> = vec![format!("--length={}", a[0]).into()];
            for i in 0..a[1] {
                args.push(file(100, i as usize, "full").into_os_string());
            }
            let mut run = Run::new(args, Input::Pipe(b"abc"));
            run.stdout = Some("/dev/full");
            let o = run.go()?;
            if o.code == Some(0) || o.code.is_none() || o.err.is_empty() {
                return Err(format!("standard output is full: {}", o.told()));
            }
            Ok(())
        }
        // output length, inputs, errno, answers before the failing write
        "write" => {
            let mut args: Vec<OsString> = vec![format!("--length={}", a[0]).into()];
            for i in 0..a[1] {
                args.push(file(100, i as usize, "full").into_os_string());
            }
            let mut run = Run::new(args, Input::Pipe(b"abc"));
            let mut s: Vec<String> = a[3..].iter().map(|n| format!("r{}", n)).collect();
            s.push(format!("e{}", a[2]));
            run.env = format!("1={}", s.join(","));
            let o = run.go()?;
            let hit = o.log.iter().any(|l| l.starts_with("0 write"));
            if hit && (o.code == Some(0) || o.code.is_none() || o.err.is_empty()) {
                return Err(format!("a write to standard output failed: {}", o.told()));
            }
            Ok(())
        }
        _ => panic!("unknown case {}", kind),
    }
}

/// A case that may be listed in the known findings; it counts as the listed
/// one only if it shows the listed symptom.
pub fn known_case(ctx: &Ctx, kind: &str, a: &[u64], symptom: &str) {
    if ctx.stopped() {
        return;
    }
    let args: Vec<String> = a.iter().map(|x| x.to_string()).collect();
    let case = format!("{} {}", kind, args.join(" "));
    let dir = std::env::var("MCX_VERIF").unwrap_or_else(|_| "/verif".into());
    let listed = std::fs::read_to_string(PathBuf::from(dir).join("known-findings.txt")).map_or(false, |t| {
        t.lines().any(|l| l.starts_with(&format!("finding: property={} case=[{}]", ctx.id, case)))
    });
    match if ctx.id == "C09" { crate::c09::check(ctx, kind, a) } else { check(ctx, kind, a) } {
        Err(e) if listed && e.contains(symptom) => ctx.note(format!("known finding: {}: {}", case, e)),
        Err(_) => {
            ctx.case(kind, a);
        }
        Ok(()) => {}
    }
}

trait Pipe {
    fn pipe(self) -> OsString;
}
impl Pipe for Vec<u8> {
    fn pipe(self) -> OsString {
        OsString::from_vec(self)
    }
}

pub fn enumerate(ctx: &Ctx) {
    prepare();
    let mut cases: Vec<(&str, Vec<u64>)> = vec![];
    // Every list of inputs; standard input can be used up only once.
    let mut level: Vec<Vec<u64>> = vec![vec![]];
    for depth in 1..=ctx.q(3, 4) {
        let mut next = vec![];
        for l in &level {
            for k in 0..KINDS {
                if k >= STDIN && l.iter().any(|&x| x >= STDIN) {
                    continue;
                }
                let mut t = l.clone();
                t.push(k);
                next.push(t);
            }
        }
        for l in &next {
            for m in 0..3 {
                if m == 0 || depth < 3 {
                    let mut a = vec![m];
                    a.extend(l);
                    cases.push(("list", a));
                }
            }
        }
        level = next;
    }
    // Counts of failures that do not fit a byte.
    for n in [127, 128, 129, 255, 256, 257, 511, 512, 513, 768, 1024] {
        for k in [MISSING, DIRECTORY, LOOP] {
            let mut a = vec![0];
            a.extend(vec![k; n]);
            cases.push(("list", a.clone()));
            a.push(OK);
            cases.push(("list", a));
        }
    }
    // Every error number, at every place, alone and between others. An
    // interruption is not an error.
    for errno in 1..=133u64 {
        if errno == libc::EINTR as u64 {
            continue;
        }
        for k in [OPEN, STAT, MAP, READ1, READ2, READ3, STDIN_READ1, STDIN_READ2] {
            // The standard library takes EBADF on standard input for the end.
            if k >= STDIN && errno == libc::EBADF as u64 {
                continue;
            }
            cases.push(("errno", vec![errno, k]));
            cases.push(("errno", vec![errno, OK, k, OK]));
            if k >= STDIN {
                cases.push(("stdin", vec![errno, k]));
            }
        }
    }
    cases.push(("stdin", vec![5, STDIN]));
    cases.push(("stdin_dir", vec![0]));
    cases.push(("stdin_dir", vec![1]));
    // Keys.
    for which in 0..2 {
        for n in (0..64).chain(65..=ctx.q(140, 300)) {
            for upper in 0..2 {
                cases.push(("keylen", vec![which, n, upper]));
            }
        }
        for c in 1..0x80u64 {
            if (c as u8).is_ascii_hexdigit() {
                continue;
            }
            let step = ctx.q(if which == 0 { 1 } else { 7 }, 1);
            for p in (0..64).step_by(step) {
                cases.push(("keychar", vec![which, p, c]));
            }
            for p in [0u64, 1, 32, 63, 64] {
                cases.push(("keyadd", vec![which, p, c]));
            }
        }
        for p in 0..64 {
            for c in [0xe9u64, 0x665, 0xff21, 0x1f980] {
                cases.push(("keychar", vec![which, p, c]));
            }
        }
        for k1 in 0..KEYS {
            for k2 in 0..KEYS {
                for place in 0..4 {
                    cases.push(("both", vec![which, k1, k2, place]));
                }
            }
        }
    }
    for m in 0..1 + 2 * KEYS {
        cases.push(("keyok", vec![m]));
    }
    for l in 0..BAD_LENGTHS.len() as u64 {
        for form in 0..4 {
            cases.push(("length", vec![l, form]));
        }
    }
    for u in 0..6 {
        cases.push(("unknown", vec![u]));
    }
    // The output cannot be written.
    for n in [0u64, 1, 32, 64, 500, 100_000] {
        for i in 0..4 {
            cases.push(("full", vec![n, i]));
            for errno in [libc::ENOSPC, libc::EIO, libc::EPIPE] {
                for s in [&[][..], &[1], &[64], &[65, 1], &[1, 1, 1], &[1024, 1024]] {
                    let mut a = vec![n, i, errno as u64];
                    a.extend(s);
                    cases.push(("write", a));
                }
            }
        }
    }
    ctx.par(cases.len(), |i| {
        let (kind, a) = &cases[i];
        ctx.case(kind, a);
    });
    for option in 0..3u64 {
        for place in 0..3u64 {
            known_case(ctx, "newline", &[option, place], "exit Some(1), stdout \"bao: --");
        }
    }
    let n = RUNS.load(Ordering::Relaxed);
    ctx.cover(cases.len() as u64, ANSWERS.load(Ordering::Relaxed) + n, n);
    ctx.sample(format!("inputs: {}", NAMES.join(", ")));
    ctx.sample("every list of inputs up to the bound, every error number at every place, every key length and position of a wrong digit");
    ctx.note("faults are the answers of a preloaded shim; an input counts as failed when a fault was really delivered to the tool");
    ctx.note("a failing fstat alone may be survived: the property is about opening, mapping and reading");
    ctx.note("EBADF on standard input is left out: the Rust standard library takes it for the end of the input");
}
