//! The tool's digests over every input route, read pattern, output length and
//! option form.

use crate::run::*;
use mcx::spec::{self, hex, CHUNK};
use mcx::{Ctx, Res};
use std::ffi::OsString;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::OpenOptionsExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Duration;

// ------------------------------------------------------------------ routes

const FILE: u64 = 0;
const STDIN_PIPE: u64 = 1;
const STDIN_FILE: u64 = 2;
const DASH_PIPE: u64 = 3;
const DASH_FILE: u64 = 4;
const SYMLINK: u64 = 5;
const FIFO: u64 = 6;
const AS_PIPE: u64 = 7;
const AS_EMPTY: u64 = 8;
const AS_HUGE: u64 = 9;
const RELATIVE: u64 = 10;
const ODD_NAME: u64 = 11;
const DEV_STDIN: u64 = 12;
const DASH_NAME: u64 = 13;
const NEWLINE_NAME: u64 = 14;
const AFTER_DASHES: u64 = 15;
const STDIN_AT: u64 = 16;
const DASH_AT: u64 = 17;
const STDIN_SOCKET: u64 = 18;
const DASH_SOCKET: u64 = 19;
/// What the inputs before have left: nothing.
const DASH_AGAIN: u64 = 20;
const DEV_FD: u64 = 21;
const ROUTES: u64 = 22;
const ROUTE_NAMES: [&str; ROUTES as usize] = [
    "file", "stdin pipe", "stdin file", "- pipe", "- file", "symlink", "fifo", "reported as a pipe",
    "reported as empty", "reported longer than the address space", "relative path", "odd name",
    "/dev/stdin", "a file named '-' given by its path", "newline in the name", "a file named like an option, after --",
    "stdin file, partly read before", "- file, partly read before", "stdin socket", "- socket", "- once more",
    "/dev/fd/0",
];

fn takes_stdin(r: u64) -> bool {
    [STDIN_PIPE, STDIN_FILE, DASH_PIPE, DASH_FILE, DEV_STDIN, STDIN_AT, DASH_AT, STDIN_SOCKET, DASH_SOCKET, DEV_FD].contains(&r)
}

struct Prepared {
    arg: Option<OsString>,
    stdin: Input<'static>,
    env: String,
    cleanup: Vec<PathBuf>,
    feed: Option<PathBuf>,
}

fn prepare_route(route: u64, len: usize, content_no: usize, slot: usize) -> Prepared {
    static UNIQUE: AtomicU64 = AtomicU64::new(0);
    let path = file(len, content_no, &format!("s{}", slot));
    let data = content(len, content_no);
    let fresh = || scratch().join(format!("u{}", UNIQUE.fetch_add(1, Ordering::Relaxed)));
    let mut p = Prepared {
        arg: Some(path.clone().into_os_string()),
        stdin: Input::Null,
        env: String::new(),
        cleanup: vec![],
        feed: None,
    };
    match route {
        FILE => {}
        STDIN_PIPE => {
            p.arg = None;
            p.stdin = Input::Pipe(data);
        }
        STDIN_FILE => {
            p.arg = None;
            p.stdin = Input::File(path);
        }
        DASH_PIPE => {
            p.arg = Some("-".into());
            p.stdin = Input::Pipe(data);
        }
        DASH_FILE => {
            p.arg = Some("-".into());
            p.stdin = Input::File(path);
        }
        STDIN_AT | DASH_AT => {
            p.arg = if route == DASH_AT { Some("-".into()) } else { None };
            let before = [1, 64, 4096, 5000][len % 4];
            let l = fresh();
            let mut f = std::fs::File::create(&l).expect("create");
            f.write_all(&vec![b'#'; before]).and_then(|_| f.write_all(data)).expect("write");
            p.stdin = Input::FileAt(l.clone(), before as u64);
            p.cleanup.push(l);
        }
        STDIN_SOCKET => {
            p.arg = None;
            p.stdin = Input::Socket(data);
        }
        DASH_SOCKET => {
            p.arg = Some("-".into());
            p.stdin = Input::Socket(data);
        }
        DASH_AGAIN => p.arg = Some("-".into()),
        DEV_FD => {
            p.arg = Some("/dev/fd/0".into());
            p.stdin = Input::Pipe(data);
        }
        SYMLINK => {
            let l = fresh();
            std::os::unix::fs::symlink(&path, &l).expect("symlink");
            p.arg = Some(l.clone().into_os_string());
            p.cleanup.push(l);
        }
        FIFO => {
            let l = fresh();
            let c = std::ffi::CString::new(l.clone().into_os_string().into_vec()).unwrap();
            assert_eq!(0, unsafe { libc::mkfifo(c.as_ptr(), 0o600) });
            p.arg = Some(l.clone().into_os_string());
            p.cleanup.push(l.clone());
            p.feed = Some(l);
        }
        AS_PIPE => p.env = format!("{}=F", ident(&path)),
        AS_EMPTY => p.env = format!("{}=S0", ident(&path)),
        AS_HUGE => p.env = format!("{}=S{}", ident(&path), i64::MIN),
        RELATIVE => p.arg = Some(path.file_name().unwrap().to_os_string()),
        ODD_NAME => {
            let l = scratch().join(format!("  b\u{e9} \u{1f980} %s\\n 'q\" {}", UNIQUE.fetch_add(1, Ordering::Relaxed)));
            std::fs::hard_link(&path, &l).expect("link");
            p.arg = Some(l.clone().into_os_string());
            p.cleanup.push(l);
        }
        DEV_STDIN => {
            p.arg = Some("/dev/stdin".into());
            p.stdin = Input::Pipe(data);
        }
        NEWLINE_NAME => {
            let l = scratch().join(format!("new\nline\n{}", UNIQUE.fetch_add(1, Ordering::Relaxed)));
            std::fs::hard_link(&path, &l).expect("link");
            p.arg = Some(l.clone().into_os_string());
            p.cleanup.push(l);
        }
        AFTER_DASHES => {
            let name = format!("--length=7{}", UNIQUE.fetch_add(1, Ordering::Relaxed));
            std::fs::hard_link(&path, scratch().join(&name)).expect("link");
            p.cleanup.push(scratch().join(&name));
            p.arg = Some(name.into());
        }
        DASH_NAME => {
            let l = fresh();
            std::fs::create_dir(&l).expect("mkdir");
            std::fs::hard_link(&path, l.join("-")).expect("link");
            p.arg = Some(l.join("-").into_os_string());
            p.cleanup.push(l.join("-"));
            p.cleanup.push(l);
        }
        _ => unreachable!(),
    }
    p
}

pub fn feed(path: PathBuf, data: &[u8], done: &AtomicBool) {
    let mut f = loop {
        match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&path) {
            Ok(f) => break f,
            Err(_) if done.load(Ordering::Relaxed) => return,
            Err(_) => std::thread::sleep(Duration::from_micros(200)),
        }
    };
    let mut at = 0;
    while at < data.len() && !done.load(Ordering::Relaxed) {
        match f.write(&data[at..]) {
            Ok(n) => at += n,
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_micros(100)),
            Err(_) => return,
        }
    }
}

/// One run over a list of inputs; each entry is (route, length, content).
fn list(inputs: &[(u64, usize, usize)], m: u64, out_len: Option<u64>, answers: &str, form: u64) -> Res {
    let mut paths: Vec<OsString> = vec![];
    let mut env = vec![];
    let mut stdin = Input::Null;
    let mut cleanup = vec![];
    let mut feeds = vec![];
    let mut want = Vec::new();
    let n = out_len.unwrap_or(32);
    for (slot, &(route, len, no)) in inputs.iter().enumerate() {
        let p = prepare_route(route, len, no, slot);
        if takes_stdin(route) {
            stdin = p.stdin;
        }
        if !p.env.is_empty() {
            env.push(p.env);
        }
        cleanup.extend(p.cleanup);
        if let Some(f) = p.feed {
            feeds.push((f, content(len, no)));
        }
        want.extend_from_slice(hex(&root(len, no, m).out_bytes(n as usize)).as_bytes());
        if let Some(a) = p.arg {
            if inputs.len() > 1 {
                want.extend_from_slice(b"  ");
                want.extend_from_slice(&a.clone().into_vec());
            }
            paths.push(a);
        }
        want.push(b'\n');
    }
    if !answers.is_empty() {
        let (route, len, _) = inputs[0];
        let id = if takes_stdin(route) { "0".to_string() } else { ident(&file(len, inputs[0].2, "s0")) };
        let mut entry = format!("{}={}", id, answers);
        env.retain(|e| {
            if e.starts_with(&format!("{}=", id)) {
                entry = format!("{},{}", e, answers);
                false
            } else {
                true
            }
        });
        env.push(entry);
    }
    let mut options: Vec<OsString> = vec![];
    let split = form & 1 != 0;
    let upper = form & 2 != 0;
    let options_last = form & 4 != 0;
    for a in mode_args(m) {
        let s = a.into_string().unwrap();
        let (name, value) = s.split_once('=').unwrap();
        let value = if upper { value.to_uppercase() } else { value.to_string() };
        if split {
            options.push(name.into());
            options.push(value.into());
        } else {
            options.push(format!("{}={}", name, value).into());
        }
    }
    if let Some(n) = out_len {
        if split {
            options.push("--length".into());
            options.push(n.to_string().into());
        } else {
            options.push(format!("--length={}", n).into());
        }
    }
    let dashes = inputs.iter().any(|i| i.0 == AFTER_DASHES);
    if dashes {
        options.push("--".into());
    }
    let args = if options_last && !dashes {
        paths.into_iter().chain(options).collect()
    } else {
        options.into_iter().chain(paths).collect()
    };
    let mut run = Run::new(args, stdin);
    run.env = env.join(";");
    let done = AtomicBool::new(false);
    let o = std::thread::scope(|s| {
        for (path, data) in feeds {
            let done = &done;
            s.spawn(move || feed(path, data, done));
        }
        let o = run.go();
        done.store(true, Ordering::Relaxed);
        o
    });
    for c in cleanup {
        let _ = std::fs::remove_file(&c).or_else(|_| std::fs::remove_dir(&c));
    }
    same(&o?, &want)
}

// The answers of a script: 0 is an interruption, u64::MAX leaves the read
// alone, anything else cuts it short.
fn script(steps: &[u64]) -> String {
    let v: Vec<String> = steps
        .iter()
        .map(|&s| match s {
            0 => format!("e{}", libc::EINTR),
            u64::MAX => "p".to_string(),
            n => format!("r{}", n),
        })
        .collect();
    v.join(",")
}

// Runs of one answer: pairs of an answer and how often it is given.
fn run_script(pairs: &[u64]) -> String {
    let v: Vec<String> = pairs.chunks(2).map(|p| format!("{}x{}", script(&p[..1]).replace('p', "p0"), p[1])).collect();
    v.join(",")
}

fn prefix(m: u64, len: usize, out_len: u64, take: usize) -> Res {
    let mut args = mode_args(m);
    args.push(format!("--length={}", out_len).into());
    let data = content(len, 0);
    let mut run = Run::new(args, Input::Pipe(data));
    run.take = 2 * take;
    let o = run.go()?;
    let want = hex(&root(len, 0, m).out_bytes(take));
    if !o.cut || o.out[..2 * take] != *want.as_bytes() {
        let at = o.out.iter().zip(want.bytes()).position(|(a, b)| *a != b).unwrap_or(o.out.len());
        return Err(format!(
            "of {} output bytes the first {} are wrong from hex digit {} on, or printing ended early ({} digits; {})",
            out_len,
            take,
            at,
            o.out.len(),
            o.told()
        ));
    }
    Ok(())
}

/// A sparse file beyond 4 GiB, mapped (0) or streamed (1).
fn big(len: u64, streamed: bool) -> Res {
    use std::sync::OnceLock;
    static MEMO: OnceLock<spec::Memo<'static>> = OnceLock::new();
    static ZERO: [u8; CHUNK] = [0; CHUNK];
    const MOST: u64 = (4 << 30) + (1 << 20);
    assert!(len <= MOST);
    let memo = MEMO.get_or_init(|| {
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
        spec::Memo::with((MOST / CHUNK as u64) as usize, mode(0), threads, |_| &ZERO[..])
    });
    let path = scratch().join(format!("big{}", len));
    let f = std::fs::File::create(&path).expect("create");
    f.set_len(len).expect("set_len");
    let mut run = Run::new(vec![path.clone().into_os_string()], Input::Null);
    if streamed {
        run.env = format!("{}=F", ident(&path));
    }
    run.patience = Duration::from_secs(300);
    let o = run.go();
    let _ = std::fs::remove_file(&path);
    same(&o?, format!("{}\n", hex(&memo.root(len as usize).hash())).as_bytes())
}

/// A file whose content only reading can tell.
fn proc_file() -> Res {
    let data = std::fs::read("/proc/version").expect("/proc/version");
    let o = Run::new(vec!["/proc/version".into()], Input::Null).go()?;
    same(&o, format!("{}\n", hex(&spec::tree(&data, 0, &mode(0)).hash())).as_bytes())
}

/// A file whose name is not UTF-8, alone or among others.
fn bad_name(position: u64) -> Res {
    let p = scratch().join(OsString::from_vec(format!("n{}", position).into_bytes().into_iter().chain([0xff, b'x']).collect()));
    std::fs::write(&p, content(100, 9)).expect("write");
    let good = file(100, 8, "g").into_os_string();
    let (args, want) = match position {
        0 => (vec![p.clone().into_os_string()], vec![9]),
        1 => (vec![p.clone().into_os_string(), good], vec![9, 8]),
        _ => (vec![good, p.clone().into_os_string()], vec![8, 9]),
    };
    let o = Run::new(args.clone(), Input::Null).go()?;
    // How the name itself is printed is the tool's choice.
    let lines: Vec<&[u8]> = o.out.split(|&b| b == b'\n').filter(|l| !l.is_empty()).collect();
    let ok = o.code == Some(0)
        && lines.len() == want.len()
        && lines.iter().zip(&want).all(|(l, &w)| l.starts_with(hex(&root(100, w, 0).hash()).as_bytes()));
    if ok {
        Ok(())
    } else {
        Err(format!("{:?}: {}", args, o.told()))
    }
}

pub fn check(_ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    let opt = |n: u64| if n == u64::MAX { None } else { Some(n) };
    match kind {
        // route, length, mode, output length, option form
        "one" => list(&[(a[0], a[1] as usize, 0)], a[2], opt(a[3]), "", a[4]),
        // route, length, mode, answers
        "reads" => list(&[(a[0], a[1] as usize, 0)], a[2], None, &script(&a[3..]), 0),
        // route, length, mode, then pairs of an answer and a count
        "runs" => list(&[(a[0], a[1] as usize, 0)], a[2], None, &run_script(&a[3..]), 0),
        // output length, inputs, then such pairs for the writes
        "wruns" => {
            let inputs: Vec<_> = (0..a[1]).map(|i| (FILE, 100 + i as usize, i as usize)).collect();
            list_with_stdout(&inputs, a[0], &run_script(&a[2..]))
        }
        // route, length, limit on every read
        "cap" => list(&[(a[0], a[1] as usize, 0)], 0, None, &format!("C{}", a[2]), 0),
        // output length, inputs, answers to the writes
        "writes" => {
            let inputs: Vec<_> = (0..a[1]).map(|i| (FILE, 100 + i as usize, i as usize)).collect();
            list_with_stdout(&inputs, a[0], &script(&a[2..]))
        }
        // mode, output length or MAX, then (route, length) of every input
        "list" => {
            let inputs: Vec<_> =
                a[2..].chunks(2).enumerate().map(|(i, p)| (p[0], p[1] as usize, i)).collect();
            list(&inputs, a[0], opt(a[1]), "", 0)
        }
        "prefix" => prefix(a[0], a[1] as usize, a[2], a[3] as usize),
        "big" => big(a[0], a[1] != 0),
        "proc" => proc_file(),
        "badname" => bad_name(a[0]),
        _ => panic!("unknown case {}", kind),
    }
}

fn list_with_stdout(inputs: &[(u64, usize, usize)], out_len: u64, answers: &str) -> Res {
    let mut want = Vec::new();
    let mut args: Vec<OsString> = vec![format!("--length={}", out_len).into()];
    for (slot, &(_, len, no)) in inputs.iter().enumerate() {
        let p = file(len, no, &format!("s{}", slot)).into_os_string();
        want.extend_from_slice(hex(&root(len, no, 0).out_bytes(out_len as usize)).as_bytes());
        if inputs.len() > 1 {
            want.extend_from_slice(b"  ");
            want.extend_from_slice(&p.clone().into_vec());
        }
        want.push(b'\n');
        args.push(p);
    }
    let mut run = Run::new(args, Input::Null);
    run.env = format!("1={}", answers);
    same(&run.go()?, &want)
}

fn sequences(alphabet: &[u64], depth: usize) -> Vec<Vec<u64>> {
    let mut all: Vec<Vec<u64>> = vec![];
    let mut level: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &level {
            for a in alphabet {
                let mut t = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    all
}

pub fn enumerate(ctx: &Ctx) {
    prepare();
    let mut cases: Vec<(&str, Vec<u64>)> = vec![];
    const D: u64 = u64::MAX;
    // Every route, with every length at which something changes.
    let mut lens: Vec<u64> = vec![0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 1000];
    for c in ctx.q(vec![1u64, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 64], (1..=70).collect()) {
        for d in [-1i64, 0, 1] {
            lens.push((c as i64 * CHUNK as i64 + d) as u64);
        }
    }
    for &l in &lens {
        for r in 0..ROUTES {
            // Alone, there is nothing before.
            if r == DASH_AGAIN && l > 0 {
                continue;
            }
            let modes: Vec<u64> = if l < 70 || l == 2048 || !ctx.quick() { (0..1 + 2 * KEYS).collect() } else { vec![0, 1, 2] };
            for m in modes {
                cases.push(("one", vec![r, l, m, D, 0]));
            }
        }
    }
    if !ctx.quick() {
        for l in 0..4300 {
            for r in [FILE, STDIN_PIPE, AS_PIPE] {
                cases.push(("one", vec![r, l, 0, D, 0]));
            }
        }
    }
    // Every output length over a few blocks, and larger ones around buffers.
    let mut outs: Vec<u64> = (0..=ctx.q(260, 1100)).collect();
    for e in [1000u64, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, (1 << 20) + 3] {
        outs.push(e);
    }
    for &n in &outs {
        for (l, m) in [(3u64, 0u64), (3, 1), (3, 2), (5000, 0), (0, 2), (64, 1)] {
            if n > 70000 && m != 0 {
                continue;
            }
            cases.push(("one", vec![if n % 2 == 0 { FILE } else { STDIN_PIPE }, l, m, n, 0]));
        }
    }
    // Output lengths that cannot be printed to the end.
    for n in [1u64 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 32, 1 << 40, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 63) + 31, u64::MAX - 32, u64::MAX - 1, u64::MAX] {
        for m in 0..3 {
            cases.push(("prefix", vec![m, 3, n, ctx.q(100_000, 2_000_000)]));
        }
    }
    // Option forms.
    for form in 0..8 {
        for m in 0..1 + 2 * KEYS {
            for n in [D, 0, 1, 33] {
                cases.push(("one", vec![FILE, 65, m, n, form]));
                cases.push(("one", vec![DASH_PIPE, 65, m, n, form]));
            }
        }
    }
    // Every sequence of read answers.
    let full = u64::MAX;
    let depth = ctx.q(5, 6);
    let big_depth = ctx.q(4, 5);
    for r in [STDIN_PIPE, STDIN_FILE, DASH_PIPE, AS_PIPE, AS_EMPTY, AS_HUGE, DASH_AT, STDIN_SOCKET] {
        let main = r == STDIN_FILE || r == AS_PIPE;
        let d = if main { depth } else { depth - 1 };
        for s in sequences(&[0, 1, 63, 64, 65, full], d) {
            let mut a = vec![r, 200, 0];
            a.extend(s);
            cases.push(("reads", a));
        }
        let d = if main { big_depth } else { big_depth - 1 };
        for s in sequences(&[0, 1, 2047, 2048, 2049, full], d) {
            let mut a = vec![r, 7000, 1];
            a.extend(s);
            cases.push(("reads", a));
        }
        for s in sequences(&[0, 1, 2048, 8192, 16383, full], d) {
            let mut a = vec![r, 40000, 2];
            a.extend(s);
            cases.push(("reads", a));
        }
        for k in (1..=ctx.q(66, 300)).chain([127, 128, 129, 1023, 1024, 2047, 2048, 2049, 4095, 4097, 8191, 8192, 8193]) {
            cases.push(("cap", vec![r, 9000, k]));
        }
    }
    // Long runs of one answer, then another.
    let mut counts: Vec<u64> = (6..ctx.q(24u64, 140)).collect();
    counts.extend([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537]);
    for r in [STDIN_PIPE, STDIN_FILE, DASH_PIPE, AS_PIPE] {
        for &n in &counts {
            // Interrupted before anything, between reads, and at the end.
            cases.push(("runs", vec![r, 5000, 0, 0, n]));
            cases.push(("runs", vec![r, 5000, 1, 1, 3, 0, n, 2048, 1, 0, n, full, 1, 0, n]));
            cases.push(("runs", vec![r, 70_000, 0, 1, n, full, 1, 1, n]));
            if r == AS_PIPE {
                cases.push(("wruns", vec![1000, 2, 0, n]));
                cases.push(("wruns", vec![1000, 2, 1, n, 0, n]));
            }
        }
    }
    // Every sequence of answers to the tool's own writes.
    for s in sequences(&[0, 1, 64, 65, full], ctx.q(3, 5)) {
        for (n, i) in [(32u64, 1u64), (32, 3), (100, 2), (0, 2), (2000, 2)] {
            let mut a = vec![n, i];
            a.extend(s.iter());
            cases.push(("writes", a));
        }
    }
    // Lists of inputs.
    let kinds: Vec<(u64, u64)> = vec![(FILE, 100), (FILE, 0), (AS_PIPE, 5000), (DASH_PIPE, 3000), (FIFO, 70), (FILE, 40000), (RELATIVE, 64), (ODD_NAME, 65), (NEWLINE_NAME, 33)];
    let idx: Vec<u64> = (0..kinds.len() as u64).collect();
    for s in sequences(&idx, ctx.q(3, 4)) {
        // Standard input ends with its first use.
        if s.len() < 2 || s.iter().filter(|&&k| k == 3).count() > 1 {
            continue;
        }
        for (m, n) in [(0, D), (1, 40)] {
            if n != D && s.len() > 2 && ctx.quick() {
                continue;
            }
            let mut a = vec![m, n];
            for &k in &s {
                a.push(kinds[k as usize].0);
                a.push(kinds[k as usize].1);
            }
            cases.push(("list", a));
        }
    }
    // Standard input more than once.
    for r in [DASH_PIPE, DASH_FILE, DASH_AT, DASH_SOCKET] {
        for l in [0u64, 1, 5000, 70000] {
            for other in [vec![], vec![FILE, 100], vec![FILE, 100, DASH_AGAIN, 0]] {
                let mut a = vec![0, D, r, l];
                a.extend(other);
                a.extend([DASH_AGAIN, 0]);
                cases.push(("list", a));
            }
        }
    }
    cases.push(("proc", vec![]));
    ctx.par(cases.len(), |i| {
        let (kind, a) = &cases[i];
        ctx.case(kind, a);
    });
    for position in 0..3u64 {
        // A refusal without any digest; anything else is new.
        crate::c10::known_case(ctx, "badname", &[position], "exit Some(101), stdout \"\"");
    }
    if !ctx.stopped() {
        for (l, s) in [((4u64 << 30) + 3000, 0u64), ((4 << 30) + 1, 1)] {
            ctx.case("big", &[l, s]);
        }
        if !ctx.quick() {
            for l in [(4u64 << 30) - 1, 4 << 30, (2 << 30) + 1, 1 << 31] {
                for s in 0..2 {
                    ctx.case("big", &[l, s]);
                }
            }
        }
    }
    let n = RUNS.load(Ordering::Relaxed);
    ctx.cover(cases.len() as u64, ANSWERS.load(Ordering::Relaxed) + n, n);
    ctx.sample(format!("routes: {}", ROUTE_NAMES.join(", ")));
    ctx.sample(format!("every sequence of read answers (interrupted, 1, around a block or chunk, all) to depth {} on {} streamed routes", depth, 8));
    ctx.note("a file is reported as a pipe, as empty or as too long to map by a preloaded shim; output lengths beyond a few MiB are checked on a prefix");
}
