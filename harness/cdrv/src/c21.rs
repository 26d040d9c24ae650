//! C: work in proportion to the input, memory that does not grow with it.

use crate::c11::{libs, CHasher};
use crate::clib::{self, CLib};
use mcx::cost::{self, count, within};
use mcx::inc::Inc;
use mcx::longrun::long;
use mcx::{Ctx, Res};

const FINALIZE: u64 = 1 << 40;

fn data(n: usize) -> &'static [u8] {
    static D: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    &D.get_or_init(|| mcx::spec::fill(5, (4 << 20) + 70_000))[..n]
}

fn show(kind: &str, a: &[u64], n: u64) {
    if std::env::var_os("MCX_VERBOSE").is_some() {
        eprintln!("{} {:?}: {}", kind, a, n);
    }
}

/// An object of its own, aligned.
#[repr(align(64))]
struct Object([u8; 4096]);

fn work(lib: &CLib, way: u64, input: &[u8]) {
    let mut o = Object([0; 4096]);
    let mut out = [0u8; 32];
    let p = o.0.as_mut_ptr();
    lib.init(p, [7u8; 32].as_ptr(), 0);
    match way {
        // All at once, or in pieces of which the number grows.
        0 | 1 => {
            let piece = if way == 0 { usize::MAX } else { std::cmp::max(1, std::cmp::min(65537, input.len() / 5000)) };
            for c in input.chunks(piece) {
                lib.update(p, c.as_ptr(), c.len());
            }
        }
        2 => {
            for r in cost::pieces(input.len()) {
                lib.update(p, input[r.clone()].as_ptr(), r.len());
            }
        }
        // Many hashers.
        _ => {
            for r in cost::pieces(input.len()) {
                lib.init(p, [7u8; 32].as_ptr(), 0);
                lib.update(p, input[r.clone()].as_ptr(), r.len());
                lib.finalize(p, out.as_mut_ptr());
            }
        }
    }
    lib.finalize(p, out.as_mut_ptr());
    std::hint::black_box(out);
}

/// step: library before piece op   one operation behind `before` bytes given in
///                                 pieces; op: length of an update, or FINALIZE
/// many: library piece count       equal updates
/// room: library way len           heap and stack
pub fn check(ctx: &Ctx, kind: &str, a: &[u64]) -> Res {
    let lib = match clib::lib(a[0]) {
        Some(l) => l,
        None => return Ok(()),
    };
    let told = |r: Res| r.map_err(|e| format!("{}: {}", lib.name, e));
    match kind {
        "step" => {
            let mut h = CHasher::new(lib, 0);
            for c in data(a[1] as usize).chunks(std::cmp::max(1, a[2] as usize)) {
                h.update(c, 0)?;
            }
            let mut out = [0u8; 32];
            let (name, bytes, (_, n)) = match a[3] {
                FINALIZE => ("hasher_finalize", 0, count(|| lib.finalize(h.p(), out.as_mut_ptr()))),
                len => ("hasher_update", len, {
                    let d = data(len as usize);
                    count(|| drop(h.update(d, 0)))
                }),
            };
            ctx.add("instructions_counted", n);
            show("step", a, n);
            told(within(
                &format!("{} ({} bytes) behind {} bytes given in pieces of {}", name, bytes, a[1], a[2]),
                n,
                1,
                bytes,
                a[1] + bytes,
            ))
        }
        "many" => {
            let mut h = CHasher::new(lib, 0);
            let d = data(a[1] as usize);
            let (_, n) = count(|| {
                for _ in 0..a[2] {
                    let _ = h.update(d, 0);
                }
            });
            ctx.add("instructions_counted", n);
            show("many", a, n);
            told(within(&format!("{} updates of {} bytes", a[2], a[1]), n, a[2], a[1] * a[2], a[1] * a[2]))
        }
        "room" => {
            let input = &long(ctx).mem.bytes()[..a[2] as usize];
            let allowed = cost::room(a[2]);
            let stack = cost::on_own_stack(|| cost::lowest_touched(&mut || work(lib, a[1], input)) as u64)?;
            show("room", a, stack);
            let what = ["one update", "updates", "updates of all shapes", "many hashers"][a[1] as usize];
            if stack > allowed {
                return told(Err(format!("{} of {} bytes: {} bytes of stack; {} are allowed", what, a[2], stack, allowed)));
            }
            let grown = cost::in_little_memory(2 << 20, || work(lib, a[1], input))
                .map_err(|e| format!("{}: {} of {} bytes: {}", lib.name, what, a[2], e))?;
            if grown > 256 << 10 {
                return told(Err(format!("{} of {} bytes: {} bytes of memory are never given back", what, a[2], grown)));
            }
            Ok(())
        }
        _ => Err("harness: unknown case".into()),
    }
}

pub fn enumerate(ctx: &Ctx) {
    let tools = clib::tools(ctx);
    let libs = libs(&tools[..1], false);
    ctx.info("builds", libs.iter().map(|&n| clib::lib(n).unwrap().name.clone()).collect::<Vec<_>>().join("; "));
    let mut cases: Vec<(&str, Vec<u64>)> = vec![];
    for &p in &libs {
        // The emulation is not the code's to answer for.
        let emulated = clib::lib(p).unwrap().name.contains("neon");
        for before in [0u64, 1, 2047, 2048, 2049, 6145, 7 * 2048, 8 * 2048, 63 * 2048 + 5, (1 << 20) + 1, (1 << 21) - 1, (3 << 20) + 2048] {
            for piece in [1u64, 1000, 2048, 1 << 30] {
                if emulated || ctx.quick() && (piece == 1 && before > 1 << 20 || piece == 2048 && before % 2048 == 0) {
                    continue;
                }
                for op in [0, 1, 64, 2049, FINALIZE] {
                    cases.push(("step", vec![p, before, piece, op]));
                }
                if piece == 1000 {
                    cases.push(("step", vec![p, before, piece, ctx.q(3, 64) * 2048]));
                }
            }
        }
        for (piece, n) in [(0, 500), (1, 2100), (3, 800), (64, 100), (65, 100), (2047, 4), (2048, 4), (2049, 4)] {
            if !emulated {
                cases.push(("many", vec![p, piece, n * ctx.q(1, 32)]));
            }
        }
        for len in ctx.q(vec![0u64, 2049, 1 << 20, (1 << 26) - 1], vec![0u64, 2049, 1 << 20, (1 << 26) - 1, (1 << 30) + 5, (1 << 32) + 2049]) {
            for way in 0..4 {
                cases.push(("room", vec![p, way, len]));
            }
        }
    }
    cases.sort_by_key(|c| std::cmp::Reverse(if c.0 == "room" { c.1[2] / 64 } else { c.1[1..].iter().filter(|x| **x < FINALIZE).sum() }));
    long(ctx);
    ctx.par(cases.len(), |i| {
        let (kind, a) = &cases[i];
        ctx.case(kind, a);
        ctx.cover(1, 1, 1);
    });
    ctx.sample(format!("{} cases: operations behind up to 3 MiB given in four ways, equal updates (instructions counted); updates and hashers over up to 64 MiB (stack and heap)", cases.len()));
    ctx.info("limits", cost::limits());
}
