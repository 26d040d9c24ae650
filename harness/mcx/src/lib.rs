//! Common machinery of the checks: parallel enumeration, crash and hang
//! supervision, replayable violations and evidence files.

pub mod cost;
pub mod guardmem;
pub mod inc;
pub mod kern;
pub mod longmem;
pub mod longrun;
pub mod placed;
pub mod spec;
pub mod step;
pub mod trace;

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// Explores the whole bounded space, calling `ctx.case` for every point.
    pub enumerate: fn(&Ctx),
    /// Decides one point of the space from scratch, given its description.
    pub check: fn(&Ctx, &str, &[u64]) -> Res,
}

struct Violation {
    order: (usize, Vec<u64>),
    kind: String,
    args: Vec<u64>,
    msg: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    prop_check: fn(&Ctx, &str, &[u64]) -> Res,
    counts: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    info: Mutex<BTreeMap<String, String>>,
    violations: Mutex<Vec<Violation>>,
    stop: AtomicBool,
    start: Instant,
}

// ------------------------------------------------------------- shared page

const SLOTS: usize = 64;
const SLOT_WORDS: usize = 160;
const KIND_WORDS: usize = 6;
const MAX_ARGS: usize = SLOT_WORDS - 3 - KIND_WORDS;
const HEADER_WORDS: usize = 8;
const PAGE_BYTES: usize = (HEADER_WORDS + SLOTS * SLOT_WORDS) * 8;

static SHARED: AtomicUsize = AtomicUsize::new(0);
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static SLOT: Cell<usize> = Cell::new(usize::MAX);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn word(i: usize) -> Option<&'static AtomicU64> {
    let base = SHARED.load(Ordering::Relaxed);
    if base == 0 {
        return None;
    }
    assert!(i < PAGE_BYTES / 8);
    Some(unsafe { &*((base + 8 * i) as *const AtomicU64) })
}

fn slot_word(slot: usize, i: usize) -> Option<&'static AtomicU64> {
    word(HEADER_WORDS + slot * SLOT_WORDS + i)
}

fn my_slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % SLOTS);
        }
        s.get()
    })
}

/// For a thread that works on the case of another: what `adopt_slot` needs.
pub fn slot() -> usize {
    my_slot()
}

pub fn adopt_slot(slot: usize) {
    SLOT.with(|s| s.set(slot));
}

fn set_slot(kind: &str, args: &[u64]) {
    let slot = my_slot();
    if slot_word(slot, 0).is_none() {
        return;
    }
    let n = std::cmp::min(args.len(), MAX_ARGS);
    slot_word(slot, 2).unwrap().store(n as u64, Ordering::Relaxed);
    let kb = kind.as_bytes();
    for k in 0..KIND_WORDS {
        let mut w = [0u8; 8];
        for j in 0..8 {
            if k * 8 + j < kb.len() {
                w[j] = kb[k * 8 + j];
            }
        }
        slot_word(slot, 3 + k).unwrap().store(u64::from_le_bytes(w), Ordering::Relaxed);
    }
    for (i, a) in args[..n].iter().enumerate() {
        slot_word(slot, 3 + KIND_WORDS + i).unwrap().store(*a, Ordering::Relaxed);
    }
    slot_word(slot, 1).unwrap().fetch_add(1, Ordering::Relaxed);
    slot_word(slot, 0).unwrap().store(1, Ordering::Relaxed);
}

fn clear_slot() {
    if let Some(w) = slot_word(my_slot(), 0) {
        w.store(0, Ordering::Relaxed);
    }
}

/// Tell the supervisor that a long case is still making progress.
pub fn tick() {
    if let Some(w) = slot_word(my_slot(), 1) {
        w.fetch_add(1, Ordering::Relaxed);
    }
}

fn read_slot(slot: usize) -> (String, Vec<u64>) {
    let n = std::cmp::min(slot_word(slot, 2).unwrap().load(Ordering::Relaxed) as usize, MAX_ARGS);
    let mut kb = Vec::new();
    for k in 0..KIND_WORDS {
        kb.extend_from_slice(&slot_word(slot, 3 + k).unwrap().load(Ordering::Relaxed).to_le_bytes());
    }
    while kb.last() == Some(&0) {
        kb.pop();
    }
    let args = (0..n)
        .map(|i| slot_word(slot, 3 + KIND_WORDS + i).unwrap().load(Ordering::Relaxed))
        .collect();
    (String::from_utf8_lossy(&kb).into_owned(), args)
}

extern "C" fn on_crash(sig: libc::c_int) {
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    if let Some(w) = word(0) {
        w.store(sig as u64, Ordering::SeqCst);
        word(1).unwrap().store(slot as u64, Ordering::SeqCst);
    }
    unsafe { libc::_exit(128 + sig) }
}

fn install_crash_handlers() {
    for &sig in &[libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

// ------------------------------------------------------------------ context

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Pick the quick or the thorough bound.
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    pub fn add(&self, name: &str, n: u64) {
        *self.counts.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }

    /// Account for explored points, API calls made on them, and complete
    /// executions of the real code compared with the reference model.
    pub fn cover(&self, states: u64, transitions: u64, traces: u64) {
        self.add("states", states);
        self.add("transitions", transitions);
        self.add("traces_validated_against_impl", traces);
    }

    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s.into());
        }
    }

    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        let mut v = self.notes.lock().unwrap();
        if !v.contains(&s) {
            v.push(s);
        }
    }

    /// A note that part of the stated space was left out.
    pub fn capped(&self, s: impl Into<String>) {
        self.note(format!("incomplete: {}", s.into()));
    }

    pub fn info(&self, k: &str, v: impl Into<String>) {
        self.info.lock().unwrap().insert(k.to_string(), v.into());
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    pub fn report(&self, kind: &str, args: &[u64], msg: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 64 {
            v.push(Violation {
                order: (args.len(), args.to_vec()),
                kind: kind.to_string(),
                args: args.to_vec(),
                msg,
            });
        }
        self.stop.store(true, Ordering::Relaxed);
    }

    /// Run `f` as the decision of one case, turning panics into failures.
    pub fn guard(&self, kind: &str, args: &[u64], f: impl FnOnce() -> Res) -> bool {
        set_slot(kind, args);
        let r = run_caught(f);
        clear_slot();
        match r {
            Ok(()) => true,
            Err(msg) => {
                self.report(kind, args, msg);
                false
            }
        }
    }

    /// As `guard`, for an exploration that shares work between cases: a
    /// failure counts only if the same case fails from scratch too.
    pub fn guard_confirmed(&self, kind: &str, args: &[u64], f: impl FnOnce() -> Res) -> bool {
        set_slot(kind, args);
        let r = run_caught(f);
        let mut ok = true;
        if let Err(shared) = r {
            ok = false;
            match run_caught(|| (self.prop_check)(self, kind, args)) {
                Err(msg) => self.report(kind, args, msg),
                Ok(()) => self.note(format!(
                    "{} {:?} differs when continued from a cloned state ({}) but not from scratch: not a violation of this property",
                    kind, args, shared
                )),
            }
        }
        clear_slot();
        ok
    }

    /// Decide one case with the property's own check function.
    pub fn case(&self, kind: &str, args: &[u64]) -> bool {
        self.guard(kind, args, || (self.prop_check)(self, kind, args))
    }

    /// Call `f` for 0..n on all cores, in order of index as far as possible.
    /// Stops early once a violation was found.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..std::cmp::min(self.threads, std::cmp::max(1, n)) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || self.stopped() {
                            break;
                        }
                        f(i);
                    })
                    .expect("spawn");
            }
        });
    }
}

impl Ctx {
    /// As `par`, with processes instead of threads. Must be called from the
    /// main thread while it is the only one.
    pub fn par_procs(&self, n: usize, f: impl Fn(usize)) {
        self.par_procs_of(self.threads, n, f)
    }

    pub fn par_procs_of(&self, procs: usize, n: usize, f: impl Fn(usize)) {
        use std::io::{Read, Write};
        use std::os::unix::io::FromRawFd;
        let workers = std::cmp::min(std::cmp::min(procs, self.threads), std::cmp::max(1, n));
        let mut kids = Vec::new();
        let _ = std::io::stdout().flush();
        for w in 0..workers {
            let mut fds = [0; 2];
            assert_eq!(0, unsafe { libc::pipe(fds.as_mut_ptr()) });
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0);
            if pid == 0 {
                SLOT.with(|s| s.set(SLOTS / 2 + w % (SLOTS / 2)));
                self.counts.lock().unwrap().clear();
                let ok = catch_unwind(AssertUnwindSafe(|| {
                    let mut i = w;
                    while i < n && !self.stopped() {
                        f(i);
                        i += workers;
                    }
                }));
                let mut text = String::new();
                for (k, v) in self.counts.lock().unwrap().iter() {
                    text.push_str(&format!("c {} {}\n", v, k));
                }
                for s in self.notes.lock().unwrap().iter() {
                    text.push_str(&format!("n {}\n", s.replace('\n', " ")));
                }
                for v in self.violations.lock().unwrap().iter() {
                    let a: Vec<String> = v.args.iter().map(|x| x.to_string()).collect();
                    text.push_str(&format!("v {} {}\t{}\n", v.kind, a.join(" "), v.msg.replace('\n', " ")));
                }
                if ok.is_err() {
                    text.push_str(&format!("p {}\n", LAST_PANIC.with(|p| p.borrow().replace('\n', " "))));
                }
                let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                let _ = out.write_all(text.as_bytes());
                unsafe { libc::_exit(0) };
            }
            unsafe { libc::close(fds[1]) };
            kids.push((w, pid, unsafe { std::fs::File::from_raw_fd(fds[0]) }));
        }
        for (w, pid, mut pipe) in kids {
            let mut text = String::new();
            let _ = pipe.read_to_string(&mut text);
            let mut status = 0;
            unsafe { libc::waitpid(pid, &mut status, 0) };
            if status != 0 {
                let (kind, args) = read_slot(SLOTS / 2 + w % (SLOTS / 2));
                word(0).map(|w| w.store(0, Ordering::SeqCst));
                slot_word(SLOTS / 2 + w % (SLOTS / 2), 0).map(|w| w.store(0, Ordering::SeqCst));
                self.report(&kind, &args, format!("the code under test ended the process (status {:#x})", status));
            }
            for line in text.lines() {
                let (tag, rest) = line.split_at(2);
                match tag {
                    "c " => {
                        let (v, k) = rest.split_once(' ').unwrap();
                        self.add(k, v.parse().unwrap());
                    }
                    "n " => self.note(rest),
                    "v " => {
                        let (case, msg) = rest.split_once('\t').unwrap();
                        let mut it = case.split_whitespace();
                        let kind = it.next().unwrap().to_string();
                        let args: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
                        self.report(&kind, &args, msg.to_string());
                    }
                    "p " => panic!("in a worker process: {}", rest),
                    _ => {}
                }
            }
        }
    }
}

pub fn run_caught(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

// --------------------------------------------------------------------- main

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    id: String,
    tier: Tier,
    seed: u64,
    replay: Option<PathBuf>,
    evidence: PathBuf,
}

fn opts() -> Opts {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut o = Opts {
        id: String::new(),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        replay: None,
        evidence: PathBuf::from("/verif/evidence"),
    };
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                o.tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--replay" => {
                i += 1;
                o.replay = Some(PathBuf::from(&args[i]));
            }
            "--evidence" => {
                i += 1;
                o.evidence = PathBuf::from(&args[i]);
            }
            a => o.id = a.to_string(),
        }
        i += 1;
    }
    if let Some(path) = &o.replay {
        if std::fs::read_to_string(path).map_or(false, |t| t.lines().any(|l| l == "tier thorough")) {
            o.tier = Tier::Thorough;
        }
    }
    o
}

fn write_replay(o: &Opts, id: &str, kind: &str, args: &[u64], msg: &str) -> PathBuf {
    let dir: &Path = &o.evidence;
    let path = dir.join(format!("replay-{}.txt", id));
    let a: Vec<String> = args.iter().map(|x| x.to_string()).collect();
    let text = format!(
        "property {}\nvariant {}\ntier {}\ncase {} {}\nobserved {}\nreproduce: cd /verif && ./check {} --replay {}\n",
        id,
        std::env::var("MCX_VARIANT").unwrap_or_default(),
        if o.tier == Tier::Quick { "quick" } else { "thorough" },
        kind,
        a.join(" "),
        msg.replace('\n', " "),
        &id[..std::cmp::min(3, id.len())],
        path.display()
    );
    let _ = std::fs::write(&path, text);
    path
}

struct Report<'a> {
    o: &'a Opts,
    prop: &'a Prop,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    notes: Vec<String>,
    info: BTreeMap<String, String>,
    wall: f64,
    violations: usize,
}

fn write_evidence(r: &Report) {
    let mut cov: Vec<String> = Vec::new();
    for (k, v) in &r.counts {
        cov.push(format!("{}: {}", json_str(k), v));
    }
    for (k, v) in &r.info {
        cov.push(format!("{}: {}", json_str(k), json_str(v)));
    }
    let s: Vec<String> = r.samples.iter().map(|s| json_str(s)).collect();
    cov.push(format!("\"samples\": [{}]", s.join(", ")));
    cov.push(format!("\"exhaustive\": {}", r.violations == 0 && !r.notes.iter().any(|n| n.starts_with("incomplete: "))));
    let n: Vec<String> = r.notes.iter().map(|s| json_str(s)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(r.prop.id),
        json_str(if r.o.tier == Tier::Quick { "quick" } else { "thorough" }),
        r.o.seed,
        json_str(r.prop.level),
        cov.join(",\n  "),
        n.join(", "),
        r.wall,
        r.violations
    );
    let _ = std::fs::create_dir_all(&r.o.evidence);
    let path = r.o.evidence.join(format!("{}.json", r.prop.id));
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("cannot write {}: {}", path.display(), e);
        std::process::exit(2);
    }
}

fn child(o: &Opts, prop: &'static Prop) -> i32 {
    if let Ok(fd) = std::env::var("MCX_FD") {
        let fd: i32 = fd.parse().unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                PAGE_BYTES,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        SHARED.store(p as usize, Ordering::SeqCst);
    }
    install_crash_handlers();
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        if std::env::var_os("MCX_VERBOSE").is_some() {
            eprintln!("{}", info);
        }
    }));
    let ctx = Ctx {
        id: prop.id,
        tier: o.tier,
        seed: o.seed,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        prop_check: prop.check,
        counts: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(Vec::new()),
        notes: Mutex::new(Vec::new()),
        info: Mutex::new(BTreeMap::new()),
        violations: Mutex::new(Vec::new()),
        stop: AtomicBool::new(false),
        start: Instant::now(),
    };
    if let Some(path) = &o.replay {
        let text = std::fs::read_to_string(path).expect("replay file");
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("case ") {
                let mut it = rest.split_whitespace();
                let kind = it.next().unwrap().to_string();
                let args: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
                let failed = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped_compat(|| {
                        set_slot(&kind, &args);
                        run_caught(|| (prop.check)(&ctx, &kind, &args))
                    });
                return match failed {
                    Ok(()) => {
                        println!("replay of {} {:?}: passes", kind, args);
                        0
                    }
                    Err(m) => {
                        println!("replay of {} {:?}: {}", kind, args, m);
                        println!("VIOLATION property={} replay={}", prop.id, path.display());
                        1
                    }
                };
            }
        }
        eprintln!("no case line in {}", path.display());
        return 2;
    }
    let r = catch_unwind(AssertUnwindSafe(|| (prop.enumerate)(&ctx)));
    if r.is_err() {
        // A panic outside any case is a bug of the harness, not a verdict.
        eprintln!("harness panic: {}", LAST_PANIC.with(|p| p.borrow().clone()));
        if ctx.violations.lock().unwrap().is_empty() {
            return 2;
        }
    }
    let mut vs = std::mem::take(&mut *ctx.violations.lock().unwrap());
    vs.sort_by(|a, b| a.order.cmp(&b.order));
    let report = Report {
        o,
        prop,
        counts: ctx.counts.lock().unwrap().clone(),
        samples: ctx.samples.lock().unwrap().clone(),
        notes: ctx.notes.lock().unwrap().clone(),
        info: ctx.info.lock().unwrap().clone(),
        wall: ctx.start.elapsed().as_secs_f64(),
        violations: vs.len(),
    };
    write_evidence(&report);
    for (k, v) in &report.counts {
        println!("{} {} = {}", prop.id, k, v);
    }
    for n in &report.notes {
        println!("{} note: {}", prop.id, n);
    }
    println!("{} wall {:.1}s", prop.id, report.wall);
    if let Some(v) = vs.first() {
        println!("{}: {} {:?}: {}", prop.id, v.kind, v.args, v.msg);
        // The same case, from scratch, must fail again for the artefact to be
        // a faithful replay; say so when it does not.
        set_slot(&v.kind, &v.args);
        let again = run_caught(|| (prop.check)(&ctx, &v.kind, &v.args));
        clear_slot();
        let msg = match again {
            Err(m) => m,
            Ok(()) => format!("{} (only within the exploration that found it)", v.msg),
        };
        let path = write_replay(o, prop.id, &v.kind, &v.args, &msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    println!("{} held on everything explored", prop.id);
    0
}

/// None if it panicked.
pub fn run_caught_value<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

trait ScopedCompat {
    fn spawn_scoped_compat<R: Send>(self, f: impl FnOnce() -> R + Send) -> R;
}
impl ScopedCompat for std::thread::Builder {
    fn spawn_scoped_compat<R: Send>(self, f: impl FnOnce() -> R + Send) -> R {
        std::thread::scope(|s| self.spawn_scoped(s, f).unwrap().join().unwrap())
    }
}

pub fn main(props: &'static [Prop]) -> ! {
    let o = opts();
    let prop = match props.iter().find(|p| p.id == o.id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", o.id);
            std::process::exit(2);
        }
    };
    if std::env::var_os("MCX_FD").is_some() || std::env::var_os("MCX_NOFORK").is_some() {
        let code = child(&o, prop);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    }
    // Supervisor: run the exploration in a child process, so that a crash or a
    // hang of the code under test is observed instead of suffered.
    let fd = unsafe { libc::memfd_create(b"mcx\0".as_ptr() as *const libc::c_char, 0) };
    assert!(fd >= 0);
    assert_eq!(0, unsafe { libc::ftruncate(fd, PAGE_BYTES as i64) });
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            PAGE_BYTES,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    SHARED.store(p as usize, Ordering::SeqCst);
    let start = Instant::now();
    let mut proc = std::process::Command::new(std::env::current_exe().unwrap())
        .args(std::env::args_os().skip(1))
        .env("MCX_FD", fd.to_string())
        .spawn()
        .expect("spawn child");
    let hang = Duration::from_secs(
        std::env::var("MCX_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120),
    );
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let fail = |kind: &str, args: &[u64], msg: &str| -> ! {
        println!("{}: {} {:?}: {}", prop.id, kind, args, msg);
        let _ = std::fs::create_dir_all(&o.evidence);
        let mut counts = BTreeMap::new();
        counts.insert("states".to_string(), 0);
        counts.insert("transitions".to_string(), 0);
        counts.insert("traces_validated_against_impl".to_string(), 0);
        write_evidence(&Report {
            o: &o,
            prop,
            counts,
            samples: vec![format!("{} {:?}: {}", kind, args, msg)],
            notes: vec!["the exploration ended at the violation".to_string()],
            info: BTreeMap::new(),
            wall: start.elapsed().as_secs_f64(),
            violations: 1,
        });
        let path = write_replay(&o, prop.id, kind, args, msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        std::process::exit(1);
    };
    loop {
        match proc.try_wait().expect("wait") {
            Some(status) => {
                let sig = word(0).unwrap().load(Ordering::SeqCst);
                if sig != 0 {
                    let slot = word(1).unwrap().load(Ordering::SeqCst) as usize;
                    if slot < SLOTS && slot_word(slot, 1).unwrap().load(Ordering::SeqCst) != 0 {
                        // Between two cases it's the doing of the one before
                        // (a damaged heap, say).
                        let (kind, args) = read_slot(slot);
                        let busy = slot_word(slot, 0).unwrap().load(Ordering::SeqCst) == 1;
                        let when = if busy { "crashed" } else { "left the process in a state in which it crashed afterwards," };
                        fail(&kind, &args, &format!("the code under test {} with signal {}", when, sig));
                    }
                    eprintln!("harness crashed with signal {} outside any case", sig);
                    std::process::exit(2);
                }
                match status.code() {
                    Some(c) => std::process::exit(c),
                    None => {
                        eprintln!("harness ended abnormally: {:?}", status);
                        std::process::exit(2);
                    }
                }
            }
            None => {
                std::thread::sleep(Duration::from_millis(if start.elapsed().as_secs() < 2 { 5 } else { 50 }));
                for slot in 0..SLOTS {
                    let t = slot_word(slot, 1).unwrap().load(Ordering::Relaxed);
                    let busy = slot_word(slot, 0).unwrap().load(Ordering::Relaxed) == 1;
                    if !busy || t != seen[slot].0 {
                        seen[slot] = (t, Instant::now());
                    } else if seen[slot].1.elapsed() > hang {
                        let _ = proc.kill();
                        let (kind, args) = read_slot(slot);
                        fail(&kind, &args, "the code under test does not terminate");
                    }
                }
            }
        }
    }
}
