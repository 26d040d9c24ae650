//! One thread interrupted at every instruction by another thread's whole
//! operation.

use crate::ops::{self, Op};
use mcx::Res;

pub struct Stepped {
    pub instructions: u64,
    pub interrupted: u64,
    pub skipped: u64,
    pub verdict: Res,
}

/// Operation `a`, interrupted by `b` at every `stride`th of its instructions
/// from..to.
pub fn run(platform: u64, a: &Op, b: &Op, from: u64, to: u64, stride: u64) -> Stepped {
    ops::set_point(None);
    rayon::set_join(None);
    let ((ka, ma), (kb, mb)) = (ops::inputs(a), ops::inputs(b));
    ops::expected(a);
    let want_b = ops::expected(b);
    let r = mcx::step::run(
        &move || ops::force(platform),
        &move || ops::run(a, &ka, ma),
        &move || ops::run(b, &kb, mb),
        &want_b,
        from,
        to,
        stride,
    );
    let verdict = match (&r.got, &r.wrong) {
        (Some(got), None) => ops::differ(a, got).map_or(Ok(()), |e| Err(format!("the interrupted thread: {}", e))),
        (_, Some((at, r))) => {
            Err(format!("the thread running at instruction {} of the other: {}", at, ops::differ(b, r).unwrap_or_default()))
        }
        (None, None) => Err("the interrupted thread did not finish".into()),
    };
    Stepped { instructions: r.instructions, interrupted: r.interrupted, skipped: r.skipped, verdict }
}
