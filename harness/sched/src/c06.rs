//! Results do not depend on thread scheduling.

use crate::explore::{self, Config};
use crate::ops::{self, Op};
use crate::relay;
use crate::step;
use mcx::{Ctx, Res};

const CHUNK: u64 = 2048;

/// sched: see explore.rs
/// step: platform (kind len mode) (kind len mode) from to stride
/// relay: see relay.rs
pub fn check(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    match kind {
        "sched" => {
            let (c, prefix) = Config::parse(a);
            explore::execute(&c, &prefix).verdict
        }
        "step" => {
            let (x, y) = (Op::from(&a[1..], 0), Op::from(&a[4..], 1));
            step::run(a[0], &x, &y, a[7], a[8], a[9]).verdict
        }
        "relay" => relay::check(a),
        _ => panic!("harness: unknown case"),
    }
}

fn op(kind: u64, len: u64, mode: u64, who: u64) -> Op {
    Op { kind, len, mode, who }
}

fn degree(p: u64) -> u64 {
    match p {
        1 => 1,
        2 => 4,
        3 => 8,
        _ => if std::is_x86_feature_detected!("avx2") { 8 } else { 4 },
    }
}

struct Job {
    config: Config,
    shard: usize,
    shards: usize,
}

fn configs(ctx: &Ctx, platforms: &[u64]) -> Vec<Config> {
    let mut v = vec![];
    let mut with = |platform, workers, policy, bound, roots: Vec<Op>| {
        v.push(Config { platform, workers, policy, bound, roots, cold: false })
    };
    for &p in platforms {
        let d = degree(p);
        // Busy pools: workers take turns, or steal whatever they can.
        for (n, workers, bound) in ctx.q(
            vec![(3, 2, 3), (4, 3, 3), (5, 2, 2), (6, 3, 2), (8, 2, 2), (8, 3, 2), (8, 4, 2), (11, 4, 1), (16, 3, 1), (16, 5, 1), (32, 8, 1), (64, 4, 1)],
            vec![(3, 2, 5), (4, 3, 4), (5, 2, 4), (6, 3, 3), (8, 2, 3), (8, 3, 3), (8, 4, 3), (11, 4, 2), (16, 3, 2), (16, 5, 2), (32, 8, 1), (64, 4, 1), (128, 6, 1)],
        ) {
            for policy in 1..=2 {
                let len = n * d * CHUNK - (policy - 1) * (CHUNK - 3);
                with(p, workers, policy, bound, vec![op(ops::ONE_SHOT, len, (n + policy) % 3, 0)]);
            }
        }
        for (a, b, workers) in [(4, 5, 2), (4, 4, 3), (8, 3, 4)] {
            for policy in 1..=2 {
                let kinds = [[ops::ONE_SHOT, ops::HASHER], [ops::TWICE, ops::ONE_SHOT]][policy as usize - 1];
                with(p, workers, policy, ctx.q(1, 2), vec![op(kinds[0], a * d * CHUNK, 1, 0), op(kinds[1], b * d * CHUNK + 1, 2, 1)]);
            }
        }
    }
    let mut add = |platform, workers, bound, roots: Vec<Op>| with(platform, workers, 0, bound, roots);
    for &p in platforms {
        let d = degree(p);
        // Trees of few tasks: every schedule. More: up to a bound.
        let full = ctx.q(3, 4);
        for n in 2..=full {
            // n groups of simd_degree chunks.
            let len = (n - 1) * d * CHUNK + 1;
            add(p, 2, usize::MAX, vec![op(ops::ONE_SHOT, len, n % 3, 0)]);
        }
        for (n, workers, bound) in ctx.q(
            vec![(4, 2, 4), (5, 2, 3), (6, 2, 3), (7, 2, 3), (8, 2, 2), (9, 2, 2), (16, 2, 1), (17, 2, 1), (32, 2, 1), (4, 3, 3), (5, 3, 2), (8, 3, 1), (8, 4, 1)],
            vec![(5, 2, 6), (6, 2, 5), (7, 2, 4), (8, 2, 4), (9, 2, 3), (16, 2, 2), (17, 2, 2), (32, 2, 2), (33, 2, 1), (64, 2, 1), (4, 3, 4), (5, 3, 3), (8, 3, 2), (8, 4, 2), (16, 4, 1)],
        ) {
            for extra in [0, 1] {
                let len = n * d * CHUNK - (1 - extra) * (CHUNK / 2 + 5) + extra * 7;
                add(p, workers, bound, vec![op(ops::ONE_SHOT, len, (n + extra) % 3, 0)]);
            }
        }
        // A pool of a single thread.
        for n in [1, 2, 3, 5, 8, 17] {
            add(p, 1, usize::MAX, vec![op(ops::ONE_SHOT, n * d * CHUNK + 1, n % 3, 0)]);
        }
        add(p, 2, ctx.q(5, 7), vec![op(ops::XOF, d * CHUNK + 9, 1, 0)]);
        add(p, 2, ctx.q(3, 4), vec![op(ops::TWICE, 3 * d * CHUNK + 9, 2, 0)]);
        // Independent threads.
        let a = d * CHUNK + CHUNK + 1;
        let kinds = [ops::ONE_SHOT, ops::HASHER, ops::XOF, ops::TWICE, ops::COMPARE, ops::COPY];
        for (i, &x) in kinds.iter().enumerate() {
            for (j, &y) in kinds.iter().enumerate().skip(i) {
                let small = [130, CHUNK + 100][(i + j) % 2];
                add(p, 2, ctx.q(2, 3), vec![op(x, small, 1, 0), op(y, small + 3, (i as u64 + 1) % 3, 1)]);
            }
        }
        // Batches, partial batches and partial chunks, away from the start.
        for whole in [1, 2, 3, 5, d / 2, d - 1, d] {
            let len = (d + whole) * CHUNK + 100;
            add(p, 2, ctx.q(1, 2), vec![op(ops::ONE_SHOT, len, 1, 0), op(ops::ONE_SHOT, len + 1, 0, 1)]);
            add(p, 2, ctx.q(1, 2), vec![op(ops::HASHER, 3 * len, 1, 0), op(ops::ONE_SHOT, len, 2, 1)]);
        }
        for bound in [ctx.q(2, 3)] {
            add(p, 2, bound, vec![op(ops::ONE_SHOT, a, 0, 0), op(ops::ONE_SHOT, a + 1, 1, 1)]);
            add(p, 3, bound, vec![op(ops::ONE_SHOT, a, 1, 0), op(ops::HASHER, 2 * CHUNK + 1, 2, 1)]);
        }
        add(p, 3, ctx.q(2, 3), vec![op(ops::ONE_SHOT, 70, 0, 0), op(ops::XOF, 130, 1, 1), op(ops::HASHER, 200, 2, 2)]);
    }
    v
}

fn cold(ctx: &Ctx) -> Vec<Config> {
    let mut v = vec![];
    let long = degree(0) * CHUNK + 1;
    for roots in [
        vec![op(ops::ONE_SHOT, 100, 0, 0), op(ops::ONE_SHOT, 70, 1, 1)],
        vec![op(ops::HASHER, 100, 0, 0), op(ops::ONE_SHOT, 3, 2, 1)],
        vec![op(ops::COMPARE, 65, 1, 0), op(ops::XOF, 2, 1, 1)],
        vec![op(ops::TWICE, long, 1, 0)],
    ] {
        v.push(Config { platform: 0, workers: 2, policy: 0, bound: ctx.q(2, 3), roots, cold: true });
    }
    v
}

fn schedules(ctx: &Ctx, configs: &[Config], shards: usize) {
    let jobs: Vec<Job> = (0..shards)
        .flat_map(|shard| configs.iter().map(move |c| Job { config: c.clone(), shard, shards }))
        .collect();
    ctx.par_procs(jobs.len(), |i| {
        let j = &jobs[i];
        let t = explore::explore(ctx, &j.config, j.shard, j.shards, ctx.q(200_000, 2_000_000));
        if std::env::var_os("MCX_VERBOSE").is_some() {
            eprintln!("{:?} shard {}: {} executions, {} choices", j.config, j.shard, t.executions, t.longest);
        }
        ctx.cover(t.executions, t.switches, t.executions);
        ctx.add("stolen_tasks", t.steals);
    });
    ctx.add("configurations", configs.len() as u64);
}

struct Pair {
    platform: u64,
    a: Op,
    b: Op,
    /// 0: one interruption per execution. n: at every nth instruction, for
    /// each of the n offsets.
    stride: u64,
}

fn step_pairs(ctx: &Ctx, platforms: &[u64]) -> Vec<Pair> {
    let mut v = vec![];
    for &platform in platforms {
        // Small operations: one interruption per execution, at every
        // instruction, or few.
        let native = platform == *platforms.last().unwrap();
        for (k1, l1, k2, l2) in [
            (ops::ONE_SHOT, 3, ops::ONE_SHOT, 3),
            (ops::ONE_SHOT, 70, ops::COMPARE, 3),
            (ops::XOF, 3, ops::ONE_SHOT, 65),
            (ops::COMPARE, 3, ops::HASHER, 3),
            (ops::HASHER, 70, ops::ONE_SHOT, 3),
            (ops::HASHER, 3, ops::XOF, 70),
            (ops::COPY, 3, ops::COPY, 70),
        ] {
            v.push(Pair { platform, a: op(k1, l1, 1, 0), b: op(k2, l2, 2, 1), stride: 1 });
            let alone = !ctx.quick() || native && l1 == 3 && k2 == ops::ONE_SHOT;
            v.push(Pair { platform, a: op(k1, l1, 1, 0), b: op(k2, l2, 2, 1), stride: if alone { 0 } else { 29 } });
        }
        // Long ones: an interruption at every instruction of one execution.
        let d = degree(platform) * CHUNK;
        let mut long = vec![
            (ops::ONE_SHOT, CHUNK + 1, ops::ONE_SHOT, CHUNK + 1),
            (ops::HASHER, 3 * CHUNK + 65, ops::ONE_SHOT, 100),
            (ops::ONE_SHOT, d + 1, ops::HASHER, 200),
            (ops::XOF, 2 * CHUNK, ops::XOF, 100),
            (ops::COPY, CHUNK + 1, ops::COPY, 200),
        ];
        if native {
            long.push((ops::ONE_SHOT, 2 * d - CHUNK - 50, ops::ONE_SHOT, 2 * d - CHUNK - 51));
        }
        if !ctx.quick() {
            for whole in 1..d / CHUNK {
                let len = d + whole * CHUNK + 100;
                long.push((ops::ONE_SHOT, len, ops::ONE_SHOT, len + 1));
            }
            long.extend([
                (ops::ONE_SHOT, 3 * d + 1, ops::ONE_SHOT, d + 1),
                (ops::TWICE, 2 * d + 1, ops::HASHER, d + 1),
                (ops::HASHER, 3 * d + 7, ops::HASHER, 5 * CHUNK + 1),
            ]);
        }
        for (k1, l1, k2, l2) in long {
            v.push(Pair { platform, a: op(k1, l1, 1, 0), b: op(k2, l2, 1, 1), stride: 1 });
            if !ctx.quick() {
                v.push(Pair { platform, a: op(k1, l1, 1, 0), b: op(k2, l2, 1, 1), stride: 13 });
            }
        }
    }
    v
}

fn case(p: &Pair, from: u64, to: u64, stride: u64) -> [u64; 10] {
    [p.platform, p.a.kind, p.a.len, p.a.mode, p.b.kind, p.b.len, p.b.mode, from, to, stride]
}

fn step_one(ctx: &Ctx, p: &Pair, from: u64, to: u64, stride: u64, n: &mut (u64, u64)) -> u64 {
    let mut len = 0;
    ctx.guard("step", &case(p, from, to, stride), || {
        let r = step::run(p.platform, &p.a, &p.b, from, to, stride);
        len = r.instructions;
        n.0 += r.interrupted;
        if r.skipped > 0 {
            ctx.note(format!("at some instructions of {:?} the operation {:?} was blocked until the other went on", p.a, p.b));
            ctx.add("interruptions_skipped", r.skipped);
        }
        r.verdict
    });
    n.1 += 1;
    len
}

fn steps(ctx: &Ctx, platforms: &[u64]) {
    let pairs = step_pairs(ctx, platforms);
    let shards = 4;
    // Two threads per process spin on each other: half as many processes.
    ctx.par_procs_of(4, pairs.len() * shards, |i| {
        let (p, shard) = (&pairs[i / shards], (i % shards) as u64);
        let mut n = (0, 0);
        if p.stride == 0 {
            // One interruption per execution. Beyond the last instruction
            // nothing is interrupted any more.
            let mut at = shard;
            while !ctx.stopped() {
                if step_one(ctx, p, at, at + 1, 1, &mut n) <= at {
                    break;
                }
                at += shards as u64;
            }
        } else {
            let mut at = shard;
            while !ctx.stopped() && at < p.stride {
                step_one(ctx, p, at, u64::MAX, p.stride, &mut n);
                at += shards as u64;
            }
        }
        ctx.cover(n.0, n.0, n.1);
        ctx.add("instruction_interruptions", n.0);
    });
}

// Every instruction of the very first call in a process.
fn cold_steps(ctx: &Ctx) {
    let pairs = [
        (op(ops::ONE_SHOT, 3, 0, 0), op(ops::ONE_SHOT, 70, 1, 1)),
        (op(ops::HASHER, 3, 1, 0), op(ops::ONE_SHOT, 3, 0, 1)),
        (op(ops::COMPARE, 3, 1, 0), op(ops::XOF, 3, 1, 1)),
    ];
    for (a, b) in &pairs {
        ops::expected(a);
        ops::expected(b);
    }
    let shards = 16;
    ctx.par_procs_of(4, pairs.len() * shards, |i| {
        let (a, b) = pairs[i / shards];
        let p = Pair { platform: 0, a, b, stride: 0 };
        let mut at = (i % shards) as u64;
        let mut n = 0;
        while !ctx.stopped() {
            let mut more = false;
            ctx.guard("step", &case(&p, at, at + 1, 1), || {
                let (len, v) = apart(&p, at);
                more = len > at;
                v
            });
            n += 1;
            if !more {
                break;
            }
            at += shards as u64;
        }
        ctx.cover(n, n, n);
        ctx.add("instruction_interruptions_of_first_calls", n);
    });
}

fn apart(p: &Pair, at: u64) -> (u64, Res) {
    use std::io::{Read, Write};
    use std::os::unix::io::FromRawFd;
    let mut fds = [0; 2];
    assert_eq!(0, unsafe { libc::pipe(fds.as_mut_ptr()) });
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        let r = mcx::run_caught_value(|| step::run(p.platform, &p.a, &p.b, at, at + 1, 1));
        let text = match r {
            Some(r) => format!("{}\n{}", r.instructions, r.verdict.err().unwrap_or_default()),
            None => "0\npanic".to_string(),
        };
        let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = out.write_all(text.as_bytes());
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut text = String::new();
    let _ = unsafe { std::fs::File::from_raw_fd(fds[0]) }.read_to_string(&mut text);
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    if status != 0 {
        return (0, Err(format!("the process ended with status {:#x}", status)));
    }
    let (n, e) = text.split_once('\n').unwrap_or(("0", "no answer"));
    (n.parse().unwrap_or(0), if e.is_empty() { Ok(()) } else { Err(e.to_string()) })
}

pub fn enumerate(ctx: &Ctx) {
    // First, while this process has not called the library.
    cold_steps(ctx);
    schedules(ctx, &cold(ctx), 8);
    let platforms = ops::platforms();
    steps(ctx, &platforms);
    relay::enumerate(ctx, &platforms);
    schedules(ctx, &configs(ctx, &platforms), ctx.q(4, 8));
    ctx.info("backends", format!("{:?} (1 portable, 2 SSE4.1, 3 AVX2, 0 as detected)", platforms));
    ctx.sample("schedules: fork-join trees of 2..16 leaf tasks on 2-3 workers, and pairs and triples of independent calls, switched at every fork, steal and compression call");
    ctx.sample("relays: every sequence of operations on one hasher with every assignment of them to two threads");
    ctx.sample("interruptions: another thread's whole operation at every single instruction of a first one");
    ctx.note("rayon is replaced by a work-stealing scheduler whose decisions are enumerated; rayon itself is trusted to run both closures of a join exactly once");
    if !cfg!(feature = "fork-join") {
        ctx.note("the library does not build against the stand-in for rayon: only independent threads were explored, not fork-join");
    }
    ctx.note("interleavings are sequentially consistent");
}
