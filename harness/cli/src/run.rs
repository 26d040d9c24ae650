//! Runs the tool in an environment the harness decides: its standard streams,
//! and (through the preloaded shim) what each controlled file answers.

use mcx::spec::{self, Mode, Node};
use mcx::Res;
use std::collections::HashMap;
use std::ffi::OsString;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::fs::MetadataExt;
use std::os::unix::io::{AsRawFd, OwnedFd};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub fn tool() -> PathBuf {
    PathBuf::from(std::env::var_os("MCX_BIN").expect("MCX_BIN names the built tool"))
}

/// Files the cases use, removed when the exploration ends.
pub struct Scratch(pub PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

static ROOT: Mutex<Option<Scratch>> = Mutex::new(None);

pub fn scratch() -> PathBuf {
    let mut g = ROOT.lock().unwrap();
    if g.is_none() {
        let mut tmpl = *b"/tmp/mcx-cli-XXXXXX\0";
        let p = unsafe { libc::mkdtemp(tmpl.as_mut_ptr() as *mut libc::c_char) };
        assert!(!p.is_null(), "mkdtemp");
        unsafe { libc::atexit(at_exit) };
        *g = Some(Scratch(PathBuf::from(std::str::from_utf8(&tmpl[..19]).unwrap())));
    }
    g.as_ref().unwrap().0.clone()
}

extern "C" fn at_exit() {
    if let Ok(mut g) = ROOT.lock() {
        *g = None;
    }
}

pub fn clean_old() {
    // Removed by a later run if this one cannot (a crash, a kill).
    if let Ok(dir) = std::fs::read_dir("/tmp") {
        for e in dir.flatten() {
            if e.file_name().to_string_lossy().starts_with("mcx-cli-") {
                if let Ok(m) = e.metadata() {
                    if m.modified().ok().and_then(|t| t.elapsed().ok()).map_or(false, |d| d.as_secs() > 7200) {
                        let _ = std::fs::remove_dir_all(e.path());
                    }
                }
            }
        }
    }
}

fn shim() -> &'static Path {
    static S: OnceLock<PathBuf> = OnceLock::new();
    S.get_or_init(|| {
        let src = concat!(env!("CARGO_MANIFEST_DIR"), "/shim.c");
        let out = scratch().join("shim.so");
        let r = Command::new("gcc")
            .args(["-O2", "-shared", "-fPIC", src, "-o"])
            .arg(&out)
            .arg("-ldl")
            .output()
            .expect("gcc");
        assert!(r.status.success(), "shim: {}", String::from_utf8_lossy(&r.stderr));
        out
    })
}

pub fn prepare() {
    clean_old();
    shim();
    assert!(tool().exists(), "{} is missing", tool().display());
}

pub enum Input<'a> {
    Null,
    Pipe(&'a [u8]),
    Socket(&'a [u8]),
    File(PathBuf),
    /// Read up to some position already.
    FileAt(PathBuf, u64),
}

pub struct Run<'a> {
    pub args: Vec<OsString>,
    pub stdin: Input<'a>,
    pub env: String,
    pub cwd: PathBuf,
    /// Stop reading standard output after this many bytes and end the tool.
    pub take: usize,
    pub stdout: Option<&'static str>,
    pub patience: Duration,
    /// Resource and limit.
    pub limits: Vec<(u32, u64)>,
}

pub struct Outcome {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// None if it was ended by a signal.
    pub code: Option<i32>,
    pub log: Vec<String>,
    pub cut: bool,
}

impl Outcome {
    pub fn told(&self) -> String {
        let text = |b: &[u8]| {
            let s = String::from_utf8_lossy(&b[..std::cmp::min(b.len(), 400)]).into_owned();
            s.replace('\n', "\\n")
        };
        format!("exit {:?}, stdout {:?}, stderr {:?}", self.code, text(&self.out), text(&self.err))
    }
}

/// No case has the tool print more than this.
const MOST: usize = 192 << 20;

pub static RUNS: AtomicU64 = AtomicU64::new(0);
pub static ANSWERS: AtomicU64 = AtomicU64::new(0);

impl<'a> Run<'a> {
    pub fn new(args: Vec<OsString>, stdin: Input<'a>) -> Self {
        Run {
            args,
            stdin,
            env: String::new(),
            cwd: scratch(),
            take: usize::MAX / 2,
            stdout: None,
            patience: Duration::from_secs(40),
            limits: vec![],
        }
    }

    pub fn go(self) -> Result<Outcome, String> {
        static N: AtomicU64 = AtomicU64::new(0);
        RUNS.fetch_add(1, Ordering::Relaxed);
        let log = scratch().join(format!("log{}", N.fetch_add(1, Ordering::Relaxed)));
        let mut c = Command::new(tool());
        c.args(&self.args)
            .current_dir(&self.cwd)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("RUST_BACKTRACE", "0")
            .stderr(Stdio::piped());
        if !self.env.is_empty() {
            c.env("LD_PRELOAD", shim()).env("MCX_ENV", &self.env).env("MCX_LOG", &log);
        }
        if !self.limits.is_empty() {
            use std::os::unix::process::CommandExt;
            let limits = self.limits.clone();
            unsafe {
                c.pre_exec(move || {
                    for &(what, n) in &limits {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        if libc::setrlimit(what, &l) != 0 {
                            return Err(std::io::Error::last_os_error());
                        }
                    }
                    Ok(())
                });
            }
        }
        let mut socket = None;
        match &self.stdin {
            Input::Null => c.stdin(Stdio::null()),
            Input::Pipe(_) => c.stdin(Stdio::piped()),
            Input::Socket(_) => {
                let (ours, theirs) = std::os::unix::net::UnixStream::pair().expect("socketpair");
                socket = Some(File::from(OwnedFd::from(ours)));
                c.stdin(OwnedFd::from(theirs))
            }
            Input::FileAt(p, at) => {
                let mut f = File::open(p).map_err(|e| format!("harness: {}: {}", p.display(), e))?;
                f.seek(SeekFrom::Start(*at)).expect("seek");
                c.stdin(f)
            }
            Input::File(p) => c.stdin(File::open(p).map_err(|e| format!("harness: {}: {}", p.display(), e))?),
        };
        match self.stdout {
            Some(p) => c.stdout(std::fs::OpenOptions::new().write(true).open(p).expect("stdout")),
            None => c.stdout(Stdio::piped()),
        };
        let mut child = c.spawn().expect("spawn the tool");
        // Our copy of the other end of a socket goes with it.
        drop(c);
        let mut stdin = child.stdin.take().map(|p| File::from(OwnedFd::from(p))).or(socket);
        let data: &[u8] = match self.stdin {
            Input::Pipe(d) | Input::Socket(d) => d,
            _ => &[],
        };
        let mut sent = 0;
        let mut stdout = child.stdout.take();
        let mut stderr = child.stderr.take();
        let (mut out, mut err) = (Vec::new(), Vec::new());
        let nonblock = |fd: i32| unsafe { libc::fcntl(fd, libc::F_SETFL, libc::O_NONBLOCK) };
        stdin.as_ref().map(|p| nonblock(p.as_raw_fd()));
        stdout.as_ref().map(|p| nonblock(p.as_raw_fd()));
        stderr.as_ref().map(|p| nonblock(p.as_raw_fd()));
        if data.is_empty() {
            stdin = None;
        }
        let mut last = Instant::now();
        let mut cut = false;
        let mut buf = vec![0u8; 65536];
        while stdout.is_some() || stderr.is_some() {
            let fd = |f: Option<i32>, ev: i16| libc::pollfd { fd: f.unwrap_or(-1), events: ev, revents: 0 };
            let mut p = [
                fd(stdin.as_ref().map(|p| p.as_raw_fd()), libc::POLLOUT),
                fd(stdout.as_ref().map(|p| p.as_raw_fd()), libc::POLLIN),
                fd(stderr.as_ref().map(|p| p.as_raw_fd()), libc::POLLIN),
            ];
            unsafe { libc::poll(p.as_mut_ptr(), 3, 1000) };
            mcx::tick();
            let mut moved = false;
            if p[0].revents != 0 {
                let end = std::cmp::min(data.len(), sent + 65536);
                match stdin.as_mut().unwrap().write(&data[sent..end]) {
                    Ok(n) => {
                        sent += n;
                        moved = true;
                        if sent == data.len() {
                            stdin = None;
                        }
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    Err(_) => stdin = None,
                }
            }
            if p[1].revents != 0 {
                let room = std::cmp::min(buf.len(), self.take - out.len());
                match stdout.as_mut().unwrap().read(&mut buf[..room]) {
                    Ok(0) => stdout = None,
                    Ok(n) => {
                        out.extend_from_slice(&buf[..n]);
                        moved = true;
                        if out.len() >= self.take {
                            cut = true;
                            break;
                        }
                        if self.take == usize::MAX / 2 && out.len() > MOST {
                            let _ = child.kill();
                            let _ = child.wait();
                            return Err(format!("the tool printed more than {} bytes and goes on", MOST));
                        }
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    Err(_) => stdout = None,
                }
            }
            if p[2].revents != 0 {
                match stderr.as_mut().unwrap().read(&mut buf) {
                    Ok(0) => stderr = None,
                    Ok(n) => {
                        if err.len() < 1 << 20 {
                            err.extend_from_slice(&buf[..n]);
                        }
                        moved = true;
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    Err(_) => stderr = None,
                }
            }
            if moved {
                last = Instant::now();
            } else if last.elapsed() > self.patience {
                let _ = child.kill();
                let _ = child.wait();
                return Err(format!("the tool neither ends nor makes progress for {:?}", self.patience));
            }
        }
        if cut {
            let _ = child.kill();
        }
        drop(stdin);
        let status = loop {
            match child.try_wait().expect("wait") {
                Some(s) => break s,
                None if last.elapsed() > self.patience => {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err("the tool closed its output and does not end".to_string());
                }
                None => std::thread::sleep(Duration::from_micros(200)),
            }
        };
        let text = std::fs::read_to_string(&log).unwrap_or_default();
        let _ = std::fs::remove_file(&log);
        let log: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        ANSWERS.fetch_add(log.len() as u64, Ordering::Relaxed);
        Ok(Outcome { out, err, code: status.code(), log, cut })
    }
}

/// "dev:ino" of a file, as the shim wants it.
pub fn ident(p: &Path) -> String {
    let m = std::fs::metadata(p).expect("stat");
    format!("{}:{}", m.dev(), m.ino())
}

// ---------------------------------------------------------------- contents

/// Content number `i` of length `n`; different numbers differ everywhere.
pub fn content(n: usize, i: usize) -> &'static [u8] {
    static C: OnceLock<Mutex<HashMap<(usize, usize), &'static [u8]>>> = OnceLock::new();
    let mut g = C.get_or_init(Default::default).lock().unwrap();
    g.entry((n, i)).or_insert_with(|| Box::leak(spec::fill(1000 + i as u64, n).into_boxed_slice()))
}

/// A regular file with that content; `tag` keeps inodes apart.
pub fn file(n: usize, i: usize, tag: &str) -> PathBuf {
    static F: OnceLock<Mutex<HashMap<(usize, usize, String), PathBuf>>> = OnceLock::new();
    let mut g = F.get_or_init(Default::default).lock().unwrap();
    g.entry((n, i, tag.to_string()))
        .or_insert_with(|| {
            let p = scratch().join(format!("f{}_{}{}", n, i, tag));
            std::fs::write(&p, content(n, i)).expect("write");
            p
        })
        .clone()
}

pub fn root(n: usize, i: usize, m: u64) -> Node {
    static R: OnceLock<Mutex<HashMap<(usize, usize, u64), Node>>> = OnceLock::new();
    let cache = R.get_or_init(Default::default);
    if let Some(r) = cache.lock().unwrap().get(&(n, i, m)) {
        return *r;
    }
    let r = spec::tree(content(n, i), 0, &mode(m));
    cache.lock().unwrap().insert((n, i, m), r);
    r
}

// ------------------------------------------------------------------- modes

pub fn key(i: u64) -> [u8; 32] {
    let mut k = [0; 32];
    match i {
        0 => k.copy_from_slice(&spec::fill(777, 32)),
        1 => {}
        2 => k = spec::cv_bytes(&spec::IV),
        _ => k = [0xff; 32],
    }
    k
}
pub const KEYS: u64 = 4;

/// 0 is the default mode; 2k+1 is keyed with key k, 2k+2 derives with key k.
pub fn mode(m: u64) -> Mode {
    if m == 0 {
        spec::mode_hash()
    } else if m % 2 == 1 {
        spec::mode_keyed(&key((m - 1) / 2))
    } else {
        spec::mode_derive(&key((m - 2) / 2))
    }
}

pub fn mode_args(m: u64) -> Vec<OsString> {
    if m == 0 {
        vec![]
    } else if m % 2 == 1 {
        vec![format!("--key={}", spec::hex(&key((m - 1) / 2))).into()]
    } else {
        vec![format!("--derive-key={}", spec::hex(&key((m - 2) / 2))).into()]
    }
}

pub fn same(o: &Outcome, want: &[u8]) -> Res {
    if o.out != want {
        let at = o.out.iter().zip(want).position(|(a, b)| a != b).unwrap_or(std::cmp::min(o.out.len(), want.len()));
        let cut = |b: &[u8]| String::from_utf8_lossy(&b[at..std::cmp::min(b.len(), at + 80)]).into_owned();
        return Err(format!(
            "printed {} bytes, expected {}; they differ from byte {}: {:?} instead of {:?} ({})",
            o.out.len(),
            want.len(),
            at,
            cut(&o.out),
            cut(want),
            o.told()
        ));
    }
    if o.code != Some(0) {
        return Err(format!("nothing failed, but {}", o.told()));
    }
    Ok(())
}
