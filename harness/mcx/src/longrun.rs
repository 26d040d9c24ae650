//! Real inputs beyond 4 GiB: a long read-only mapping, its model, and the
//! stops at which an incremental hasher is finalized.

use crate::inc::Inc;
use crate::longmem::Long;
use crate::spec::{self, Memo, Mode, CHUNK};
use crate::{Ctx, Res};
use std::sync::OnceLock;

const PERIOD: usize = 8 << 20;
pub const G: u64 = 1 << 30;

pub struct LongWorld {
    pub mem: Long,
    period: Vec<u8>,
    pub max: u64,
}

pub fn long(ctx: &Ctx) -> &'static LongWorld {
    static W: OnceLock<LongWorld> = OnceLock::new();
    W.get_or_init(|| {
        let period = spec::fill(ctx.seed, PERIOD);
        let max = ctx.q(4 * G + 64 * 2048 * 1024, 17 * G);
        let mem = Long::new(&period, (max / PERIOD as u64) as usize + 2);
        LongWorld { mem, period, max }
    })
}

pub fn memo(w: &'static LongWorld, m: Mode, upto: u64, threads: usize) -> Memo<'static> {
    let full = (upto / CHUNK as u64) as usize;
    Memo::with(full, m, threads, move |i| {
        let at = (i * CHUNK) % PERIOD;
        &w.period[at..at + CHUNK]
    })
}

// Where the incremental hasher is finalized.
pub fn stops(max: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut edge = 4 * G;
    while edge <= max {
        for d in [-2049i64, -2048, -1, 0, 1, 2047, 2048, 2049, 4096, 17 * 2048 + 3, 64 * 2048] {
            v.push((edge as i64 + d) as u64);
        }
        edge += 4 * G;
    }
    v.retain(|&x| x <= max);
    v
}

/// plan: 0 as much as fits, 1 3 MiB and something, 2 64 KiB, 3 + n: n bytes and
/// then more than 4 GiB in one update.
pub fn incremental(h: &mut impl Inc, w: &LongWorld, memo: &Memo, plan: u64) -> Res {
    let mem = w.mem.bytes();
    let mut pos = 0u64;
    let mut stops = stops(w.max);
    if plan >= 3 {
        // One update that is itself longer than 4 GiB.
        stops = vec![plan - 3, *stops.last().unwrap(), w.max];
    }
    for stop in stops {
        // Approach in large odd pieces, or all at once.
        while pos < stop {
            let piece = match plan {
                0 | 3.. => stop - pos,
                1 => (3 << 20) + 12345,
                _ => 64 << 10,
            };
            let n = std::cmp::min(piece, stop - pos);
            h.update(&mem[pos as usize..(pos + n) as usize], 0)?;
            pos += n;
            crate::tick();
        }
        h.verify(&memo.root(pos as usize)).map_err(|e| format!("after {} bytes: {}", pos, e))?;
    }
    Ok(())
}

