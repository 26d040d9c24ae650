//! The C code compiled for 32-bit x86, run in processes that answer requests
//! (m32/driver.c). One process for each thread and program.

use crate::clib::{self, deltas};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// What the inputs and outputs of a kernel call may come to.
pub const ROOM: usize = 16 << 20;
pub const MEM: usize = 4096;

struct Process {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}

impl Drop for Process {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static RUNNING: RefCell<HashMap<u64, Process>> = RefCell::new(HashMap::new());
}

/// Asks program `n` and reads as many bytes as `len` says, given the answer
/// so far, until it says no more.
fn ask(n: u64, h: [u32; 8], parts: &[&[u8]], len: &dyn Fn(&[u8]) -> usize) -> Vec<u8> {
    RUNNING.with(|r| {
        let mut r = r.borrow_mut();
        let p = r.entry(n).or_insert_with(|| start(&clib::program(n)));
        let mut q: Vec<u8> = h.iter().flat_map(|w| w.to_le_bytes()).collect();
        for part in parts {
            q.extend_from_slice(part);
        }
        let mut answer = || -> std::io::Result<Vec<u8>> {
            p.to.write_all(&q)?;
            let mut v = Vec::new();
            loop {
                let k = len(&v);
                if k == 0 {
                    return Ok(v);
                }
                let at = v.len();
                v.resize(at + k, 0);
                p.from.read_exact(&mut v[at..])?;
            }
        };
        match answer() {
            Ok(v) => v,
            Err(_) => {
                let mut p = r.remove(&n).unwrap();
                panic!("the 32-bit program ended: {:?}", p.child.wait());
            }
        }
    })
}

fn start(path: &PathBuf) -> Process {
    let mut child = Command::new(path)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("harness: cannot run {}: {}", path.display(), e));
    let to = child.stdin.take().unwrap();
    let from = child.stdout.take().unwrap();
    Process { child, to, from }
}

fn exactly(k: usize) -> impl Fn(&[u8]) -> usize {
    move |v| k - v.len()
}

fn mem(p: *const u8) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(p, MEM) }
}

fn put(p: *mut u8, v: &[u8]) {
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()) }
}

/// Size of the object (if known), whether the state is accessible, and which
/// kernels there are. None if the program does not run here.
pub fn about(n: u64) -> Option<(Option<usize>, bool, u32)> {
    let v = std::panic::catch_unwind(|| ask(n, [5, 0, 0, 0, 0, 0, 0, 0], &[], &exactly(12))).ok()?;
    let w = |i: usize| u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]);
    Some((Some(w(0) as usize).filter(|&s| s > 0), w(4) != 0, w(8)))
}

/// All take and return objects of MEM bytes.
pub fn init(n: u64, h: *mut u8, key: *const u8, flags: u8) {
    let key = unsafe { std::slice::from_raw_parts(key, 32) };
    put(h, &ask(n, [0, flags as u32, 0, 0, 0, 0, 0, 0], &[mem(h), key], &exactly(MEM)));
}

pub fn update(n: u64, h: *mut u8, input: *const u8, len: usize) {
    let input = unsafe { std::slice::from_raw_parts(input, len) };
    put(h, &ask(n, [1, len as u32, 0, 0, 0, 0, 0, 0], &[mem(h), input], &exactly(MEM)));
}

/// Writes the bytes around the output too.
pub fn finalize(n: u64, h: *const u8, out: *mut u8) {
    let fill = unsafe { *out.sub(1) };
    let v = ask(n, [2, fill as u32, 0, 0, 0, 0, 0, 0], &[mem(h)], &exactly(34));
    put(unsafe { out.sub(1) }, &v);
}

pub fn dump(n: u64, h: *const u8, out: *mut u8) -> usize {
    let v = ask(n, [3, 0, 0, 0, 0, 0, 0, 0], &[mem(h)], &|v| match v.len() {
        0 => 4,
        k => 4 + u32::from_le_bytes([v[0], v[1], v[2], v[3]]) as usize - k,
    });
    put(out, &v[4..]);
    v.len() - 4
}

pub fn place(n: u64, h: *mut u8, cvs: *const u8, count: usize, offset: u64) {
    let cvs = unsafe { std::slice::from_raw_parts(cvs, 32 * count) };
    put(h, &ask(n, [4, count as u32, offset as u32, (offset >> 32) as u32, 0, 0, 0, 0], &[mem(h), cvs], &exactly(MEM)));
}

pub fn compress(n: u64, k: usize, cv: &[u8; 32], block: &[u8], len: u8, off: u64, flags: u8) -> Vec<u8> {
    let h = [6, k as u32, block.len() as u32, len as u32, off as u32, (off >> 32) as u32, flags as u32, 0];
    ask(n, h, &[cv, block], &exactly(32))
}

pub fn many(n: u64, k: usize, exact: bool, block_len: usize, ptrs: &[*const u8], blocks: usize, key: &[u8; 32], off: u64, delta: u64, fl: [u8; 3], out: &mut [u8]) {
    let flags = fl[0] as u32 | (fl[1] as u32) << 8 | (fl[2] as u32) << 16;
    let h = [7, k as u32, ptrs.len() as u32, blocks as u32, block_len as u32, flags, out.len() as u32, exact as u32];
    let mut q = key.to_vec();
    q.extend(off.to_le_bytes());
    for d in deltas(delta) {
        q.extend(d.to_le_bytes());
    }
    for p in ptrs {
        q.extend((*p as usize as u32 % 64).to_le_bytes());
        q.extend_from_slice(unsafe { std::slice::from_raw_parts(*p, block_len * blocks) });
    }
    let v = ask(n, h, &[&q, out], &exactly(out.len()));
    out.copy_from_slice(&v);
}
