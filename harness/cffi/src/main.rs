//! The C hasher through its Rust bindings.

#![allow(unexpected_cfgs)]

#[allow(dead_code)]
#[path = "../../cdrv/src/clib.rs"]
mod clib;
#[allow(dead_code)]
#[path = "../../cdrv/src/m32.rs"]
mod m32;
#[cfg(feature = "kernels")]
mod kernels;

use baokeshed::c::Hasher;
use mcx::guardmem::{paint_stack, Guarded};
use mcx::inc::{op, Inc, World};
use mcx::longrun;
use mcx::placed::{self, Place};
use mcx::spec::{self, Cv, Memo, Mode, Node, CHUNK};
use mcx::{Ctx, Prop, Res};

fn key(m: u64) -> [u8; 32] {
    if m == 0 {
        return spec::cv_bytes(&spec::IV);
    }
    let mut k = [0; 32];
    k.copy_from_slice(&spec::fill(700 + (m - 1) / 2, 32));
    k
}

fn mode(m: u64) -> Mode {
    if m == 0 {
        spec::mode_hash()
    } else if m % 2 == 1 {
        spec::mode_keyed(&key(m))
    } else {
        spec::mode_derive(&key(m))
    }
}

fn flags(m: u64) -> u8 {
    match m {
        0 => 0,
        m if m % 2 == 1 => 16,
        _ => 32,
    }
}

/// The Rust object flush against an unmapped page, where a write past its end
/// is a fault.
struct Bound {
    mem: Option<Guarded>,
}

thread_local! {
    static POOL: std::cell::RefCell<Vec<Guarded>> = std::cell::RefCell::new(Vec::new());
}

fn page() -> Guarded {
    POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| Guarded::new(std::mem::size_of::<Hasher>()))
}

impl Drop for Bound {
    fn drop(&mut self) {
        let mem = self.mem.take().unwrap();
        let _ = POOL.try_with(|p| p.borrow_mut().push(mem));
    }
}

impl Bound {
    fn new(m: u64) -> Bound {
        let mem = page();
        mem.all().iter_mut().for_each(|b| *b = 0x3c);
        paint_stack(0x77);
        unsafe { std::ptr::write(mem.end(std::mem::size_of::<Hasher>()).as_mut_ptr() as *mut Hasher, Hasher::new(&key(m), flags(m))) };
        Bound { mem: Some(mem) }
    }
    fn get(&self) -> &mut Hasher {
        unsafe { &mut *(self.mem.as_ref().unwrap().end(std::mem::size_of::<Hasher>()).as_mut_ptr() as *mut Hasher) }
    }
}

fn verify(h: &Hasher, root: &Node) -> Res {
    let want = root.hash();
    for again in 0..2 {
        let got = h.finalize();
        if got != want {
            return Err(format!("finalize (call {}): got {} want {}", again + 1, spec::hex(&got), spec::hex(&want)));
        }
    }
    Ok(())
}

impl Inc for Bound {
    fn update(&mut self, input: &[u8], _: u64) -> Res {
        self.get().update(input);
        Ok(())
    }
    fn verify(&self, root: &Node) -> Res {
        verify(self.get(), root)
    }
    fn dup(&self) -> Option<Self> {
        let copy: Hasher = *self.get();
        let b = Bound { mem: Some(page()) };
        unsafe { std::ptr::write(b.get() as *mut Hasher, copy) };
        Some(b)
    }
    fn state(&self) -> Option<Vec<u8>> {
        let mut v = vec![0; 4096];
        let n = probe()?.dump(self.get() as *mut Hasher as *const u8, v.as_mut_ptr())?;
        v.truncate(n);
        Some(v)
    }
}

fn probe() -> Option<&'static clib::CLib> {
    clib::lib(clib::lib_number(0, 0, true))
}

impl Place for Bound {
    fn fresh(m: u64) -> Self {
        Bound::new(m)
    }
    fn place(m: u64, cvs: &[Cv], chunks: u64) -> Option<Self> {
        let probe = probe()?;
        if !probe.can_place() {
            return None;
        }
        if cvs.len() > 53 {
            return None;
        }
        let b = Bound::new(m);
        let bytes: Vec<u8> = cvs.iter().flat_map(spec::cv_bytes).collect();
        probe.place(b.get() as *mut Hasher as *mut u8, bytes.as_ptr(), cvs.len(), chunks * CHUNK as u64);
        Some(b)
    }
}

/// Plain values, moved and copied as Rust does.
#[derive(Clone, Copy)]
struct Plain(Hasher);

impl Inc for Plain {
    fn update(&mut self, input: &[u8], _: u64) -> Res {
        self.0.update(input);
        Ok(())
    }
    fn verify(&self, root: &Node) -> Res {
        verify(&self.0, root)
    }
    fn dup(&self) -> Option<Self> {
        Some(*self)
    }
    fn state(&self) -> Option<Vec<u8>> {
        None
    }
}

const SIZES: [usize; 12] = [0, 1, 63, 64, 65, 2047, 2048, 2049, 4096, 6144, 16 * 2048 + 1, 33 * 2048];

/// seq: mode op...
/// long: mode plan
fn check_seq(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    let m = a[0];
    if kind == "long" {
        let w = longrun::long(ctx);
        return longrun::incremental(&mut Plain(Hasher::new(&key(m), flags(m))), w, &longrun::memo(w, mode(m), w.max, ctx.threads), a[1]);
    }
    let total: u64 = a[1..].iter().sum();
    let data = spec::fill(ctx.seed, total as usize + CHUNK);
    let memo = Memo::new(&data, mode(m));
    let make = move || Plain(Hasher::new(&key(m), flags(m)));
    World { make: &make, data: &data, memo: &memo, finalize_between: true }.run(&a[1..])
}

fn enumerate_seq(ctx: &Ctx) {
    let depth = ctx.q(3, 4);
    let data = spec::fill(ctx.seed, 34 * 2048 * (depth + 1));
    let memos: Vec<Memo> = (0..5).map(|m| Memo::new(&data, mode(m))).collect();
    let alphabet: Vec<u64> = SIZES.iter().map(|&s| op(s, 0)).collect();
    let mut jobs = Vec::new();
    for m in 0..5u64 {
        for &first in &alphabet {
            jobs.push((m, if m == 0 { depth } else { depth - 1 }, first));
        }
    }
    ctx.par(jobs.len(), |i| {
        let (m, d, first) = jobs[i];
        let make = move || Plain(Hasher::new(&key(m), flags(m)));
        let w = World { make: &make, data: &data, memo: &memos[m as usize], finalize_between: true };
        let (s, t) = w.dfs(ctx, "seq", &[m], &mut vec![first], &alphabet, d);
        ctx.cover(s, t, s);
    });
    ctx.sample(format!("Rust bindings: all update sequences of length <= {} over sizes {:?}", depth + 1, SIZES));
    // Every length, whole.
    let max = ctx.q(6, 40) * CHUNK + 2;
    ctx.par((max + 63) / 64, |i| {
        let mut n = 0;
        for l in i * 64..std::cmp::min(max, i * 64 + 64) {
            let m = (l % 5) as u64;
            ctx.guard("seq", &[m, l as u64], || {
                let mut h = Plain(Hasher::new(&key(m), flags(m)));
                h.update(&data[..l], 0)?;
                h.verify(&memos[m as usize].root(l))
            });
            n += 1;
        }
        ctx.cover(n, 3 * n, n);
    });
    ctx.sample(format!("Rust bindings: every length up to {}", max));
    let most = ctx.q(16 << 20, 96 << 20);
    let wide = spec::fill(ctx.seed, most + 4 * CHUNK);
    let m0 = Memo::new(&wide, mode(0));
    let make = || Plain(Hasher::new(&key(0), flags(0)));
    World { make: &make, data: &wide, memo: &m0, finalize_between: true }.wide_all(ctx, &[0], most);
    ctx.sample(format!("Rust bindings: single updates of 2^k and 3*2^k chunks and their neighbours up to {} bytes", most));
    let w = longrun::long(ctx);
    ctx.case("long", &[0, 3]);
    ctx.cover(3, w.max / CHUNK as u64, 1);
    ctx.sample(format!("Rust bindings: one update of {} bytes", w.max));
}

/// seq: mode op...
/// placed: mode chunks form op...
fn check_mem(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    match kind {
        "placed" => placed::check::<Bound>(mode, a),
        "seq" => {
            let m = a[0];
            let total: u64 = a[1..].iter().sum();
            let data = spec::fill(ctx.seed, total as usize + CHUNK);
            let memo = Memo::new(&data, mode(m));
            let make = move || Bound::new(m);
            World { make: &make, data: &data, memo: &memo, finalize_between: true }.run(&a[1..])
        }
        _ => panic!("harness: unknown case"),
    }
}

fn enumerate_mem(ctx: &Ctx) {
    probe();
    ctx.info("size of the Rust object", format!("{}", std::mem::size_of::<Hasher>()));
    if let Some(s) = probe().and_then(|p| p.size) {
        ctx.info("size of the C object", format!("{}", s));
    }
    let sizes = [0usize, 1, 64, 2047, 2048, 2049, 33 * 2048];
    let mut n = 0;
    for &x in &sizes {
        for &y in &sizes {
            for m in 0..3 {
                ctx.case("seq", &[m, x as u64, y as u64]);
                n += 1;
            }
        }
    }
    ctx.cover(n, 4 * n, n);
    placed::enumerate::<Bound>(ctx, "placed", &[vec![]], 3, 0, |a| check_mem(ctx, "placed", a));
    ctx.sample("Rust bindings: the object against an unmapped page, at every chunk position of C07, up to 53 pending subtrees");
}

#[cfg(not(feature = "kernels"))]
mod kernels {
    use super::*;
    pub fn enumerate32(ctx: &Ctx) {
        ctx.capped("the kernels are not declared as they were");
    }
    pub fn check32(_: &Ctx, _: &str, _: &[u64]) -> Res {
        Ok(())
    }
    pub use {check32 as check64, enumerate32 as enumerate64};
}

static PROPS: &[Prop] = &[
    Prop { id: "C11R", level: "model_checking", enumerate: enumerate_seq, check: check_seq },
    Prop { id: "C14R", level: "model_checking", enumerate: enumerate_mem, check: check_mem },
    Prop { id: "C12F", level: "model_checking", enumerate: kernels::enumerate32, check: kernels::check32 },
    Prop { id: "C13F", level: "model_checking", enumerate: kernels::enumerate64, check: kernels::check64 },
];

fn main() {
    mcx::main(PROPS)
}
