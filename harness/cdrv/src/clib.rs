//! Compiles the C sources of /repo in every configuration and loads them.

use crate::m32;
use mcx::kern::Kernel;
use mcx::spec;
use mcx::Ctx;
use std::collections::hash_map::DefaultHasher;
use std::ffi::{c_void, CString};
use std::hash::{Hash, Hasher as _};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

const C: &str = "/repo/c";
const C64: &str = "/repo/c64";

pub struct Tool {
    pub name: &'static str,
    cc: &'static str,
    flags: &'static [&'static str],
}

pub const TOOLS: [Tool; 7] = [
    Tool { name: "gcc -O2", cc: "gcc", flags: &["-O2"] },
    Tool { name: "clang -O3 -DNDEBUG", cc: "clang", flags: &["-O3", "-DNDEBUG", "-funsigned-char"] },
    Tool { name: "gcc -O0", cc: "gcc", flags: &["-O0"] },
    Tool { name: "gcc -O3", cc: "gcc", flags: &["-O3"] },
    // For memory containment: array bounds are monitored too.
    Tool { name: "gcc -O1 with bounds checks", cc: "gcc", flags: &["-O1", "-fsanitize=bounds", "-fsanitize-trap=bounds"] },
    // Run as processes of their own (m32.rs).
    Tool { name: "gcc -O2, 32-bit", cc: "gcc", flags: &["-m32", "-O2"] },
    Tool { name: "clang -O3 -DNDEBUG, 32-bit", cc: "clang", flags: &["-m32", "-O3", "-DNDEBUG"] },
];
pub const BOUNDS: usize = 4;

fn is32(tool: usize) -> bool {
    tool > BOUNDS
}

pub struct Config {
    pub name: &'static str,
    defines: &'static [&'static str],
    main_flags: &'static [&'static str],
}

const SSE: &str = "-DBAOKESHED_USE_SSE41=1";
const AVX2: &str = "-DBAOKESHED_USE_AVX2=1";
const AVX512: &str = "-DBAOKESHED_USE_AVX512=1";

pub const CONFIGS: [Config; 6] = [
    Config { name: "portable", defines: &[], main_flags: &[] },
    Config { name: "sse41", defines: &[SSE], main_flags: &[] },
    Config { name: "avx2", defines: &[SSE, AVX2], main_flags: &[] },
    Config { name: "avx512", defines: &[SSE, AVX2, AVX512], main_flags: &[] },
    Config { name: "neon", defines: &["-DBAOKESHED_USE_NEON=1"], main_flags: &[] },
    Config { name: "avx2 built for this machine (popcnt)", defines: &[SSE, AVX2], main_flags: &["-mavx2", "-mpopcnt"] },
];

fn has_avx512() -> bool {
    is_x86_feature_detected!("avx512f") && is_x86_feature_detected!("avx512vl")
}

/// The configurations this machine can run.
pub fn configs() -> Vec<usize> {
    (0..CONFIGS.len())
        .filter(|&c| match c {
            1 => is_x86_feature_detected!("sse4.1"),
            2 => is_x86_feature_detected!("avx2"),
            3 => has_avx512(),
            5 => is_x86_feature_detected!("avx2") && is_x86_feature_detected!("popcnt"),
            _ => true,
        })
        .collect()
}

/// The toolchains to use. The first is the one everything is explored with.
pub fn tools(ctx: &Ctx) -> Vec<usize> {
    let have_clang = Command::new("clang").arg("--version").output().map_or(false, |o| o.status.success());
    let all: Vec<usize> = ctx.q(vec![0, 1], vec![0, 1, 2, 3]);
    all.into_iter().filter(|&t| have_clang || TOOLS[t].cc != "clang").collect()
}

/// The 32-bit toolchains that can build and run the code here, and why others
/// cannot.
pub fn tools32(ctx: &Ctx) -> Vec<usize> {
    let all: Vec<usize> = ctx.q(vec![5], vec![5, 6]);
    all.into_iter()
        .filter(|&t| {
            let why = match lib(lib_number(t, 0, false)) {
                Some(_) => return true,
                None => "cannot build or run the C code as a 32-bit program",
            };
            ctx.note(format!("{}: {}", TOOLS[t].name, why));
            false
        })
        .collect()
}

/// The configurations of a 32-bit build.
pub fn configs32() -> Vec<usize> {
    configs().into_iter().filter(|&c| c != 5).collect()
}

fn harness_dir() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../cdrv"))
}

fn sources_hash() -> u64 {
    let mut h = DefaultHasher::new();
    let mut files: Vec<PathBuf> = Vec::new();
    for d in [Path::new(C), Path::new(C64), &harness_dir().join("neon"), &harness_dir().join("m32"), &harness_dir().join("m32/include")] {
        for e in std::fs::read_dir(d).unwrap_or_else(|e| panic!("{}: {}", d.display(), e)) {
            files.push(e.unwrap().path());
        }
    }
    files.push(harness_dir().join("probe.c"));
    files.sort();
    for f in files {
        f.hash(&mut h);
        std::fs::read(&f).unwrap_or_default().hash(&mut h);
    }
    format!("{:?}", TOOLS.iter().map(|t| t.flags).collect::<Vec<_>>()).hash(&mut h);
    h.finish()
}

fn dir() -> &'static PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let root = PathBuf::from(std::env::var("MCX_TARGET").unwrap_or("/verif/target".into())).join("cso");
        std::fs::create_dir_all(&root).expect("create build directory");
        let name = format!("{:016x}", sources_hash());
        // What other trees left behind is of no use.
        for e in std::fs::read_dir(&root).expect("list build directory").flatten() {
            if e.file_name().to_string_lossy() != name {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        let d = root.join(name);
        std::fs::create_dir_all(&d).expect("create build directory");
        d
    })
}

fn run(cc: &str, args: &[String], out: &Path) -> Result<(), String> {
    if out.exists() {
        return Ok(());
    }
    let tmp = out.with_extension(format!("{}.tmp", std::process::id()));
    let r = Command::new(cc)
        .args(args)
        .arg("-o")
        .arg(&tmp)
        .output()
        .map_err(|e| format!("{}: {}", cc, e))?;
    if !r.status.success() {
        return Err(format!("{} {}: {}", cc, args.join(" "), String::from_utf8_lossy(&r.stderr)));
    }
    std::fs::rename(&tmp, out).map_err(|e| format!("{}: {}", out.display(), e))
}

fn compile(tool: usize, source: &str, extra: &[&str], out: &Path) -> Result<(), String> {
    let t = &TOOLS[tool];
    let mut args: Vec<String> = t.flags.iter().map(|s| s.to_string()).collect();
    // As build.rs does it.
    args.extend(["-std=c11", "-w", "-g1", "-I", C].iter().map(|s| s.to_string()));
    if is32(tool) {
        // There is no C library: no headers and no start-up code.
        let own = Command::new(t.cc).arg("-print-file-name=include").output().map_err(|e| format!("{}: {}", t.cc, e))?;
        let own = String::from_utf8_lossy(&own.stdout).trim().to_string();
        let stubs = harness_dir().join("m32/include").display().to_string();
        args.extend(["-ffreestanding", "-fno-pic", "-fno-stack-protector", "-mno-popcnt", "-nostdinc", "-isystem", &own, "-isystem", &stubs].iter().map(|s| s.to_string()));
    } else {
        args.push("-fPIC".to_string());
    }
    args.extend(extra.iter().map(|s| s.to_string()));
    args.extend(["-c".to_string(), source.to_string()]);
    run(t.cc, &args, out)
}

fn link(tool: usize, objects: &[PathBuf], out: &Path) -> Result<(), String> {
    let t = &TOOLS[tool];
    let mut args: Vec<String> = ["-shared", "-Wl,-Bsymbolic", "-Wl,-z,now"].iter().map(|s| s.to_string()).collect();
    args.extend(objects.iter().map(|p| p.display().to_string()));
    run(t.cc, &args, out)
}

/// (suffix, flags)
fn kernel_objects(tool: usize) -> Result<Vec<(&'static str, PathBuf)>, String> {
    let neon = format!("-I{}", harness_dir().join("neon").display());
    let mut jobs: Vec<(&'static str, String, PathBuf, Vec<String>)> = Vec::new();
    for (suffix, flags) in [
        ("portable", vec![]),
        ("sse41", vec!["-msse4.1".to_string()]),
        ("avx2", vec!["-mavx2".to_string()]),
        ("avx512", vec!["-mavx512f".to_string(), "-mavx512vl".to_string()]),
        ("neon", vec![neon]),
    ] {
        for (d, pre) in [(C, "baokeshed_"), (C64, "baokeshed64_")] {
            let src = format!("{}/{}{}.c", d, pre, suffix);
            let out = dir().join(format!("{}{}.{}.o", pre, suffix, tool));
            jobs.push((suffix, src, out, flags.clone()));
        }
    }
    std::thread::scope(|s| {
        let all: Vec<_> = jobs
            .iter()
            .map(|(_, src, out, flags)| {
                s.spawn(move || {
                    let f: Vec<&str> = flags.iter().map(|s| s.as_str()).collect();
                    compile(tool, src, &f, out)
                })
            })
            .collect();
        all.into_iter().map(|t| t.join().unwrap()).collect::<Result<Vec<()>, String>>()
    })?;
    Ok(jobs.into_iter().map(|(s, _, o, _)| (s, o)).collect())
}

fn open(path: &Path) -> *mut c_void {
    let p = CString::new(path.display().to_string()).unwrap();
    let h = unsafe { libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL) };
    if h.is_null() {
        let e = unsafe { std::ffi::CStr::from_ptr(libc::dlerror()) };
        panic!("cannot load {}: {:?}", path.display(), e);
    }
    h
}

fn sym(h: *mut c_void, name: &str) -> Option<*mut c_void> {
    let n = CString::new(name).unwrap();
    let p = unsafe { libc::dlsym(h, n.as_ptr()) };
    if p.is_null() {
        None
    } else {
        Some(p)
    }
}

// ------------------------------------------------------------------ hasher

pub struct CLib {
    pub name: String,
    pub size: Option<usize>,
    way: Way,
}

enum Way {
    Here {
        init: extern "C" fn(*mut u8, *const u8, u8),
        update: extern "C" fn(*mut u8, *const u8, usize),
        finalize: extern "C" fn(*const u8, *mut u8),
        dump: Option<extern "C" fn(*const u8, *mut u8) -> usize>,
        place: Option<extern "C" fn(*mut u8, *const u8, usize, u64)>,
    },
    /// In a process of its own: program, is the state accessible.
    There(u64, bool),
}

impl CLib {
    pub fn init(&self, h: *mut u8, key: *const u8, flags: u8) {
        match self.way {
            Way::Here { init, .. } => init(h, key, flags),
            Way::There(n, _) => m32::init(n, h, key, flags),
        }
    }
    pub fn update(&self, h: *mut u8, input: *const u8, len: usize) {
        match self.way {
            Way::Here { update, .. } => update(h, input, len),
            Way::There(n, _) => m32::update(n, h, input, len),
        }
    }
    pub fn finalize(&self, h: *const u8, out: *mut u8) {
        match self.way {
            Way::Here { finalize, .. } => finalize(h, out),
            Way::There(n, _) => m32::finalize(n, h, out),
        }
    }
    /// None: the state is not accessible.
    pub fn dump(&self, h: *const u8, out: *mut u8) -> Option<usize> {
        match self.way {
            Way::Here { dump, .. } => Some(dump?(h, out)),
            Way::There(n, true) => Some(m32::dump(n, h, out)),
            Way::There(..) => None,
        }
    }
    pub fn can_place(&self) -> bool {
        match self.way {
            Way::Here { place, .. } => place.is_some(),
            Way::There(_, there) => there,
        }
    }
    pub fn place(&self, h: *mut u8, cvs: *const u8, n: usize, offset: u64) {
        match self.way {
            Way::Here { place, .. } => place.unwrap()(h, cvs, n, offset),
            Way::There(p, _) => m32::place(p, h, cvs, n, offset),
        }
    }
}

/// Library number: (tool * number of configs + config) * 2 + (1 if probed).
pub fn lib_number(tool: usize, config: usize, probed: bool) -> u64 {
    ((tool * CONFIGS.len() + config) * 2 + probed as usize) as u64
}

/// None: the probe does not compile against this tree.
pub fn lib(n: u64) -> Option<&'static CLib> {
    const N: usize = TOOLS.len() * CONFIGS.len() * 2;
    static LIBS: [OnceLock<Option<CLib>>; N] = [const { OnceLock::new() }; N];
    LIBS[n as usize].get_or_init(|| load(n)).as_ref()
}

fn objects(tool: usize) -> &'static Vec<(&'static str, PathBuf)> {
    const N: usize = TOOLS.len();
    static OBJ: [OnceLock<Vec<(&'static str, PathBuf)>>; N] = [const { OnceLock::new() }; N];
    OBJ[tool].get_or_init(|| kernel_objects(tool).unwrap_or_else(|e| panic!("cannot compile the C code: {}", e)))
}

/// The 32-bit program of a library number.
pub fn program(n: u64) -> PathBuf {
    dir().join(format!("program{}", n))
}

fn build32(n: u64) -> Result<(), String> {
    let config = &CONFIGS[(n / 2) as usize % CONFIGS.len()];
    let tool = (n / 2) as usize / CONFIGS.len();
    let main = dir().join(format!("main{}.o", n));
    let define = format!("-DBAOKESHED_C=\"{}/baokeshed.c\"", C);
    let mut flags: Vec<&str> = config.defines.to_vec();
    if n % 2 == 1 {
        flags.push(&define);
        compile(tool, &harness_dir().join("probe.c").display().to_string(), &flags, &main)?;
    } else {
        compile(tool, &format!("{}/baokeshed.c", C), &flags, &main)?;
    }
    let driver = dir().join(format!("driver.{}.o", tool));
    compile(tool, &harness_dir().join("m32/driver.c").display().to_string(), &["-fno-tree-loop-distribute-patterns", "-fno-builtin"], &driver)?;
    let mut args: Vec<String> = ["-m32", "-nostdlib", "-static", "-no-pie"].iter().map(|s| s.to_string()).collect();
    args.extend([main, driver].iter().map(|p| p.display().to_string()));
    args.extend(kernel_objects(tool)?.iter().map(|o| o.1.display().to_string()));
    run(TOOLS[tool].cc, &args, &program(n))
}

fn load(n: u64) -> Option<CLib> {
    let probed = n % 2 == 1;
    let config = (n / 2) as usize % CONFIGS.len();
    let tool = (n / 2) as usize / CONFIGS.len();
    let c = &CONFIGS[config];
    if is32(tool) {
        let r = build32(n).and_then(|_| m32::about(n).ok_or("it does not run".to_string()));
        return match r {
            Ok((_, false, _)) if probed => None,
            Ok((size, state, _)) => Some(CLib { name: format!("{}, {}", c.name, TOOLS[tool].name), size, way: Way::There(n, state) }),
            Err(e) => {
                eprintln!("no 32-bit program: {}", e);
                None
            }
        };
    }
    let main = dir().join(format!("main{}.o", n));
    let define = format!("-DBAOKESHED_C=\"{}/baokeshed.c\"", C);
    let mut flags: Vec<&str> = c.defines.iter().chain(c.main_flags).copied().collect();
    let probe = harness_dir().join("probe.c").display().to_string();
    if probed {
        flags.push(&define);
        if let Err(e) = compile(tool, &probe, &flags, &main) {
            eprintln!("no access to the C hasher's state: {}", e);
            return None;
        }
    } else if let Err(e) = compile(tool, &format!("{}/baokeshed.c", C), &flags, &main) {
        panic!("cannot compile the C code: {}", e);
    }
    let mut objs = vec![main];
    objs.extend(objects(tool).iter().map(|o| o.1.clone()));
    let so = dir().join(format!("hasher{}.so", n));
    if let Err(e) = link(tool, &objs, &so) {
        panic!("cannot link the C code: {}", e);
    }
    let h = open(&so);
    let need = |s: &str| sym(h, s).unwrap_or_else(|| panic!("the C library lacks {}", s));
    unsafe {
        Some(CLib {
            name: format!("{}, {}", c.name, TOOLS[tool].name),
            size: sym(h, "verif_sizeof").map(|f| std::mem::transmute::<_, extern "C" fn() -> usize>(f)()),
            way: Way::Here {
                init: std::mem::transmute(need("hasher_init")),
                update: std::mem::transmute(need("hasher_update")),
                finalize: std::mem::transmute(need("hasher_finalize")),
                dump: sym(h, "verif_dump").map(|f| std::mem::transmute(f)),
                place: sym(h, "verif_place").map(|f| std::mem::transmute(f)),
            },
        })
    }
}

// ----------------------------------------------------------------- kernels

pub type CompressFn = extern "C" fn(*mut u8, *const u8, u8, u64, u8);
pub type ManyFn = extern "C" fn(*const *const u8, usize, usize, *const u8, u64, *const u64, u8, u8, u8, *mut u8);
pub type ExactFn = extern "C" fn(*const *const u8, usize, *const u8, u64, *const u64, u8, u8, u8, *mut u8);

#[derive(Clone, Copy)]
pub enum F {
    Compress(CompressFn),
    Many(ManyFn),
    Exact(ExactFn, usize),
    /// In a 32-bit program: number of the kernel there, compression or not,
    /// number of inputs if that is fixed.
    There(u64, usize, bool, Option<usize>),
}

pub struct CKernel {
    pub name: String,
    pub w64: bool,
    pub f: F,
}

const NAMES: [(&str, &str); 26] = [
    ("compress_portable", "portable"),
    ("compress_sse41", "sse41"),
    ("compress_avx512", "avx512"),
    ("hash4_sse41", "sse41"),
    ("hash8_avx2", "avx2"),
    ("hash4_avx512", "avx512"),
    ("hash8_avx512", "avx512"),
    ("hash16_avx512", "avx512"),
    ("hash4_neon", "neon"),
    ("hash_many_portable", "portable"),
    ("hash_many_sse41", "sse41"),
    ("hash_many_avx2", "avx2"),
    ("hash_many_avx512", "avx512"),
    ("hash_many_neon", "neon"),
    ("baokeshed64_compress_portable", "portable"),
    ("baokeshed64_compress_avx2", "avx2"),
    ("baokeshed64_compress_avx512", "avx512"),
    ("baokeshed64_hash2_sse41", "sse41"),
    ("baokeshed64_hash4_avx2", "avx2"),
    ("baokeshed64_hash2_avx512", "avx512"),
    ("baokeshed64_hash4_avx512", "avx512"),
    ("baokeshed64_hash8_avx512", "avx512"),
    ("baokeshed64_hash2_neon", "neon"),
    ("baokeshed64_hash_many_portable", "portable"),
    ("baokeshed64_hash_many_sse41", "sse41"),
    ("baokeshed64_hash_many_avx2", "avx2"),
];
const NAMES2: [(&str, &str); 2] = [("baokeshed64_hash_many_avx512", "avx512"), ("baokeshed64_hash_many_neon", "neon")];

/// Whether it is a compression function, and how many inputs it is for.
fn shape(name: &str) -> (bool, Option<usize>) {
    let plain = name.trim_start_matches("baokeshed64_");
    if plain.starts_with("compress") {
        (true, None)
    } else if plain.starts_with("hash_many") {
        (false, None)
    } else {
        (false, Some(plain[4..].split('_').next().unwrap().parse().unwrap()))
    }
}

fn runs_here(suffix: &str) -> bool {
    match suffix {
        "sse41" => is_x86_feature_detected!("sse4.1"),
        "avx2" => is_x86_feature_detected!("avx2"),
        "avx512" => has_avx512(),
        _ => true,
    }
}

/// Every kernel with a given toolchain. The order does not depend on the
/// machine; None is one that cannot run or does not exist here.
pub fn ckernels(tool: usize) -> &'static Vec<Option<CKernel>> {
    const N: usize = TOOLS.len();
    static K: [OnceLock<Vec<Option<CKernel>>>; N] = [const { OnceLock::new() }; N];
    K[tool].get_or_init(|| {
        if is32(tool) {
            let n = lib_number(tool, 0, false);
            let have = lib(n).and_then(|_| m32::about(n)).map_or(0, |a| a.2);
            return NAMES
                .iter()
                .chain(&NAMES2)
                .enumerate()
                .map(|(i, &(name, suffix))| {
                    if have >> i & 1 == 0 || !runs_here(suffix) {
                        return None;
                    }
                    let (compress, fixed) = shape(name);
                    let f = F::There(n, i, compress, fixed);
                    Some(CKernel { name: format!("{} ({})", name, TOOLS[tool].name), w64: name.starts_with("baokeshed64"), f })
                })
                .collect();
        }
        let so = dir().join(format!("kernels{}.so", tool));
        let objs: Vec<PathBuf> = objects(tool).iter().map(|o| o.1.clone()).collect();
        if let Err(e) = link(tool, &objs, &so) {
            panic!("cannot link the C code: {}", e);
        }
        let h = open(&so);
        NAMES
            .iter()
            .chain(&NAMES2)
            .map(|&(name, suffix)| {
                if !runs_here(suffix) {
                    return None;
                }
                let p = sym(h, name)?;
                let f = unsafe {
                    match shape(name) {
                        (true, _) => F::Compress(std::mem::transmute(p)),
                        (_, None) => F::Many(std::mem::transmute(p)),
                        (_, Some(n)) => F::Exact(std::mem::transmute(p), n),
                    }
                };
                Some(CKernel { name: format!("{} ({})", name, TOOLS[tool].name), w64: name.starts_with("baokeshed64"), f })
            })
            .collect()
    })
}

pub fn missing(tool: usize) -> Vec<String> {
    NAMES
        .iter()
        .chain(&NAMES2)
        .zip(ckernels(tool))
        .filter(|(_, k)| k.is_none())
        .map(|(n, _)| n.0.to_string())
        .collect()
}

/// A table of multiples, as the callers have it.
pub fn deltas(delta: u64) -> [u64; 17] {
    let mut d = [0; 17];
    for i in 0..17 {
        d[i] = delta.wrapping_mul(i as u64);
    }
    d
}

fn to_kernel(k: &CKernel) -> Kernel {
    let mut out = Kernel {
        name: k.name.clone(),
        w64: k.w64,
        compress: None,
        xof: None,
        many: None,
        exactly: None,
        blocks: if k.w64 { vec![1, 2, 3, 4, 6, 8, 16, 31, 32] } else { vec![1, 2, 3, 4, 6, 8, 12, 16, 31, 32, 33] },
        room: if let F::There(..) = k.f { m32::ROOM } else { 128 << 20 },
        any_blocks: true,
    };
    match k.f {
        F::Compress(f) => {
            out.compress = Some(Box::new(move |cv, block, len, off, flags| {
                let mut state = [0u64; 4];
                let p = state.as_mut_ptr() as *mut u8;
                // Words are little-endian on every machine this runs on.
                unsafe { std::ptr::copy_nonoverlapping(cv.as_ptr(), p, 32) };
                f(p, block.as_ptr(), len, off, flags);
                unsafe { std::slice::from_raw_parts(p, 32) }.to_vec()
            }));
        }
        F::Many(f) => {
            out.many = Some(Box::new(move |ptrs, blocks, key, off, delta, fl, o| {
                let key: [u64; 4] = key_words(key);
                f(ptrs.as_ptr(), ptrs.len(), blocks, key.as_ptr() as *const u8, off, deltas(delta).as_ptr(), fl[0], fl[1], fl[2], o.as_mut_ptr())
            }));
        }
        F::Exact(f, n) => {
            out.exactly = Some(n);
            out.many = Some(Box::new(move |ptrs, blocks, key, off, delta, fl, o| {
                let key: [u64; 4] = key_words(key);
                f(ptrs.as_ptr(), blocks, key.as_ptr() as *const u8, off, deltas(delta).as_ptr(), fl[0], fl[1], fl[2], o.as_mut_ptr())
            }));
        }
        F::There(n, i, true, _) => {
            out.compress = Some(Box::new(move |cv, block, len, off, flags| m32::compress(n, i, cv, block, len, off, flags)));
        }
        F::There(n, i, false, fixed) => {
            out.exactly = fixed;
            let block_len = if k.w64 { 128 } else { 64 };
            out.many = Some(Box::new(move |ptrs, blocks, key, off, delta, fl, o| {
                m32::many(n, i, fixed.is_some(), block_len, ptrs, blocks, key, off, delta, fl, o)
            }));
        }
    }
    out
}

fn key_words(key: &[u8; 32]) -> [u64; 4] {
    let mut k = [0; 4];
    for i in 0..4 {
        let mut w = [0; 8];
        w.copy_from_slice(&key[8 * i..8 * i + 8]);
        k[i] = u64::from_le_bytes(w);
    }
    k
}

/// All kernels of one word size, over the given toolchains, for `mcx::kern`.
pub fn kernels(w64: bool, tools: &[usize]) -> Vec<Kernel> {
    let _ = spec::IV;
    tools
        .iter()
        .flat_map(|&t| ckernels(t).iter().flatten().filter(|k| k.w64 == w64).map(to_kernel))
        .collect()
}
