//! The tool needs no more memory, address space or descriptors for more input,
//! output or inputs.

use crate::run::*;
use mcx::spec::{self, hex, CHUNK};
use mcx::{Ctx, Res};
use std::ffi::OsString;
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::sync::OnceLock;

const MIB: u64 = 1 << 20;
const PERIOD: usize = 4 << 20;

const FILE: u64 = 0;
const FILE_STREAMED: u64 = 1;
const PIPE: u64 = 2;
const STDIN_FILE: u64 = 3;
const DASH: u64 = 4;
const NAMES: [&str; 6] = ["a file", "a file that cannot be mapped", "a pipe", "a file as standard input", "- as a pipe", "a fifo"];

/// What the tool may have for itself.
const DATA: u64 = 48 * MIB;

fn memo(m: u64) -> &'static spec::Memo<'static> {
    static M: [OnceLock<spec::Memo<'static>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    M[m as usize].get_or_init(|| {
        let period = content(PERIOD, 0);
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
        spec::Memo::with(((1100 * MIB) as usize) / CHUNK, mode(m), threads, move |i| {
            let at = i * CHUNK % PERIOD;
            &period[at..at + CHUNK]
        })
    })
}

fn long_content(len: usize) -> std::fs::File {
    let fd = unsafe { libc::memfd_create(b"input\0".as_ptr() as *const libc::c_char, 0) };
    assert!(fd >= 0);
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    use std::io::{Seek, Write};
    let period = content(PERIOD, 0);
    let mut at = 0;
    while at < len {
        let n = std::cmp::min(len - at, PERIOD);
        f.write_all(&period[..n]).expect("write");
        at += n;
    }
    f.rewind().expect("rewind");
    f
}

/// Whether the limit means anything here.
fn enforced() -> bool {
    static E: OnceLock<bool> = OnceLock::new();
    *E.get_or_init(|| unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let l = libc::rlimit { rlim_cur: 256 * MIB, rlim_max: 256 * MIB };
            libc::setrlimit(libc::RLIMIT_DATA, &l);
            let p = libc::mmap(
                std::ptr::null_mut(),
                512 << 20,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            libc::_exit((p == libc::MAP_FAILED) as i32);
        }
        let mut status = 0;
        assert!(pid > 0 && libc::waitpid(pid, &mut status, 0) == pid);
        libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 1
    })
}

fn failed(what: String, e: String) -> String {
    format!("{}, with {} MiB of memory for itself: {}", what, DATA / MIB, e)
}

fn long_input(route: u64, len: u64, m: u64) -> Res {
    let want = format!("{}\n", hex(&memo(m).root(len as usize).hash()));
    let f = long_content(len as usize);
    let path = scratch().join(format!("long{}_{}_{}", route, len, m));
    let mut args = mode_args(m);
    let mut limits = vec![(libc::RLIMIT_DATA as u32, DATA)];
    let mut env = String::new();
    let mut fifo = None;
    let map = unsafe { libc::mmap(std::ptr::null_mut(), len as usize, libc::PROT_READ, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(map != libc::MAP_FAILED);
    let bytes: &'static [u8] = unsafe { std::slice::from_raw_parts(map as *const u8, len as usize) };
    let proc_path = format!("/proc/{}/fd/{}", std::process::id(), f.as_raw_fd());
    let stdin = match route {
        FILE | FILE_STREAMED => {
            args.push(proc_path.clone().into());
            if route == FILE_STREAMED {
                env = format!("{}=F", ident(std::path::Path::new(&proc_path)));
            } else {
                limits.push((libc::RLIMIT_AS as u32, len + 256 * MIB));
            }
            Input::Null
        }
        PIPE => Input::Pipe(bytes),
        STDIN_FILE => Input::File(proc_path.into()),
        DASH => {
            args.push("-".into());
            Input::Pipe(bytes)
        }
        _ => {
            let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
            assert_eq!(0, unsafe { libc::mkfifo(c.as_ptr(), 0o600) });
            args.push(path.clone().into_os_string());
            fifo = Some(path.clone());
            Input::Null
        }
    };
    let mut run = Run::new(args, stdin);
    run.limits = limits;
    run.env = env;
    let done = std::sync::atomic::AtomicBool::new(false);
    let o = std::thread::scope(|s| {
        if let Some(p) = fifo.clone() {
            let done = &done;
            s.spawn(move || crate::c09::feed(p, bytes, done));
        }
        let o = run.go();
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        o
    });
    if fifo.is_some() {
        let _ = std::fs::remove_file(&path);
    }
    unsafe { libc::munmap(map, len as usize) };
    o.and_then(|o| same(&o, want.as_bytes()))
        .map_err(|e| failed(format!("{} bytes from {}", len, NAMES[route as usize]), e))
}

fn long_output(out_len: u64) -> Res {
    let mut run = Run::new(vec![format!("--length={}", out_len).into()], Input::Pipe(content(100, 0)));
    run.limits = vec![(libc::RLIMIT_DATA as u32, DATA)];
    let want = hex(&root(100, 0, 0).out_bytes(out_len as usize)) + "\n";
    run.go()
        .and_then(|o| same(&o, want.as_bytes()))
        .map_err(|e| failed(format!("{} bytes of output", out_len), e))
}

/// The same inputs again and again: what one needed serves the next.
fn many_inputs(n: u64, len: u64, kind: u64) -> Res {
    let (path, f) = if kind == FILE_STREAMED {
        (file(len as usize, 0, "many"), None)
    } else {
        let f = long_content(len as usize);
        (format!("/proc/{}/fd/{}", std::process::id(), f.as_raw_fd()).into(), Some(f))
    };
    let data = if f.is_some() { None } else { Some(root(len as usize, 0, 0)) };
    let want = hex(&data.unwrap_or_else(|| memo(0).root(len as usize)).hash());
    let args: Vec<OsString> = (0..n).map(|_| path.clone().into_os_string()).collect();
    let mut run = Run::new(args, Input::Null);
    if kind == FILE_STREAMED {
        run.env = format!("{}=F", ident(&path));
    }
    run.limits = vec![
        (libc::RLIMIT_DATA as u32, DATA),
        (libc::RLIMIT_AS as u32, len + 256 * MIB),
        (libc::RLIMIT_NOFILE as u32, 32),
    ];
    let lines: String = (0..n).map(|_| format!("{}  {}\n", want, path.display())).collect();
    run.go()
        .and_then(|o| same(&o, lines.as_bytes()))
        .map_err(|e| failed(format!("{} inputs of {} bytes, 32 descriptors and {} MiB of address space", n, len, len / MIB + 256), e))
}

pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    if !enforced() {
        ctx.capped("this kernel does not limit private memory: growth of the tool is not looked for");
        return Ok(());
    }
    match kind {
        "input" => long_input(a[0], a[1], a[2]),
        "output" => long_output(a[0]),
        "inputs" => many_inputs(a[0], a[1], a[2]),
        _ => Err("harness: unknown case".into()),
    }
}

pub fn enumerate(ctx: &Ctx) {
    prepare();
    enforced();
    let mut cases: Vec<(&str, Vec<u64>)> = vec![];
    for route in 0..6 {
        for &m in &[0, 1, 2] {
            if m == 0 || !ctx.quick() {
                cases.push(("input", vec![route, 160 * MIB + 2049, m]));
                if !ctx.quick() {
                    cases.push(("input", vec![route, 1000 * MIB + 1, m]));
                }
            }
        }
    }
    for out in [ctx.q(24, 60) * MIB + 7] {
        cases.push(("output", vec![out]));
    }
    for (n, len) in [(400, 4 * MIB), (400, 5000), (3, 160 * MIB)] {
        for kind in [FILE, FILE_STREAMED] {
            if kind == FILE || len < 5 * MIB {
                cases.push(("inputs", vec![n * ctx.q(1, 4), len, kind]));
            }
        }
    }
    let threads = ctx.q(4, 3);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= cases.len() || ctx.stopped() {
                    break;
                }
                ctx.case(cases[i].0, &cases[i].1);
                ctx.cover(1, 1, 1);
            });
        }
    });
    ctx.sample(format!(
        "the tool with {} MiB for itself: {} MiB from each of six routes, {} MiB of output, 400 inputs with 32 descriptors and 256 MiB of address space beside the mapped file",
        DATA / MIB,
        160,
        ctx.q(24, 60)
    ));
}
