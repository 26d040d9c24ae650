//! The C kernels against the specification. A kernel's number depends on the
//! toolchains and on the machine; both are part of the evidence.

use crate::clib;
use mcx::kern::{self, Kernel};
use mcx::{Ctx, Res};
use std::sync::OnceLock;

fn list(ctx: &Ctx, w64: bool) -> &'static [Kernel] {
    static K: [OnceLock<Vec<Kernel>>; 2] = [OnceLock::new(), OnceLock::new()];
    K[w64 as usize].get_or_init(|| {
        let mut t = clib::tools(ctx);
        t.extend(clib::tools32(ctx));
        clib::kernels(w64, &t)
    })
}

fn enumerate(ctx: &Ctx, w64: bool) {
    let t = clib::tools(ctx);
    std::thread::scope(|s| {
        for &t in &t {
            s.spawn(move || clib::ckernels(t));
        }
    });
    let ks = list(ctx, w64);
    for m in clib::missing(t[0]) {
        if m.starts_with("baokeshed64") == w64 {
            ctx.note(format!("{} does not exist or cannot run on this machine", m));
        }
    }
    ctx.note("the NEON kernels run on an emulation of the intrinsics they use (harness/cdrv/neon/arm_neon.h)");
    kern::enumerate(ctx, ks);
}

pub fn check32(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    kern::check(list(ctx, false), kind, a)
}
pub fn check64(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    kern::check(list(ctx, true), kind, a)
}
pub fn enumerate32(ctx: &Ctx) {
    enumerate(ctx, false)
}
pub fn enumerate64(ctx: &Ctx) {
    enumerate(ctx, true)
}
