//! Every schedule of the fork-join tasks and of independent threads, at the
//! granularity of compression calls, up to a preemption bound.

use crate::{ops, pool};
use mcx::{Ctx, Res};
use ops::Op;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Config {
    pub platform: u64,
    pub workers: usize,
    /// See pool.rs.
    pub policy: u64,
    pub bound: usize,
    pub roots: Vec<Op>,
    /// Every execution in a process that has not called the library before.
    pub cold: bool,
}

// cold|policy<<1 platform workers bound roots (kind len mode)* (index << 8 | choice)*
impl Config {
    pub fn args(&self) -> Vec<u64> {
        let mut a = vec![self.cold as u64 | self.policy << 1, self.platform, self.workers as u64, self.bound as u64, self.roots.len() as u64];
        for r in &self.roots {
            a.extend([r.kind, r.len, r.mode]);
        }
        a
    }

    pub fn parse(a: &[u64]) -> (Config, Vec<usize>) {
        let n = a[4] as usize;
        let roots = (0..n).map(|i| Op::from(&a[5 + 3 * i..], i as u64)).collect();
        let mut prefix = vec![];
        for c in &a[5 + 3 * n..] {
            let i = (c >> 8) as usize;
            prefix.resize(i, 0);
            prefix.push((c & 0xff) as usize);
        }
        (Config { cold: a[0] & 1 == 1, policy: a[0] >> 1, platform: a[1], workers: a[2] as usize, bound: a[3] as usize, roots }, prefix)
    }

    pub fn case(&self, choices: &[usize]) -> Vec<u64> {
        let mut a = self.args();
        a.extend(choices.iter().enumerate().filter(|c| *c.1 != 0).map(|(i, c)| (i as u64) << 8 | *c as u64));
        a
    }
}

pub struct Run {
    /// (options, taken)
    pub trace: Vec<(usize, usize)>,
    pub switches: u64,
    pub steals: u64,
    pub stalls: u64,
    pub diverged: bool,
    pub verdict: Res,
}

pub fn setup() {
    rayon::set_join(Some(pool::join));
    rayon::set_index(Some(pool::worker_index));
    ops::set_point(Some(pool::point));
}

fn execute_here(c: &Config, prefix: &[usize]) -> Run {
    setup();
    let inputs: Vec<_> = c.roots.iter().map(ops::inputs).collect();
    let results: Vec<Mutex<Option<ops::Bytes>>> = c.roots.iter().map(|_| Mutex::new(None)).collect();
    let bodies: Vec<Box<dyn Fn() + Sync>> = (0..c.roots.len())
        .map(|i| {
            let (op, (key, m), r) = (&c.roots[i], &inputs[i], &results[i]);
            Box::new(move || {
                let b = ops::run(op, key, m);
                *r.lock().unwrap() = Some(b);
            }) as Box<dyn Fn() + Sync>
        })
        .collect();
    let roots: Vec<&(dyn Fn() + Sync)> = bodies.iter().map(|b| &**b).collect();
    let platform = c.platform;
    rayon::set_threads(c.workers);
    let d = pool::run(c.workers, c.policy, c.bound, prefix, &|| ops::force(platform), &roots);
    let mut verdict = d.error.map_or(Ok(()), Err);
    for (i, r) in results.iter().enumerate() {
        if verdict.is_ok() {
            verdict = match &*r.lock().unwrap() {
                Some(b) => ops::differ(&c.roots[i], b).map_or(Ok(()), |e| Err(format!("thread {}: {}", i, e))),
                None => Err(format!("thread {} did not finish", i)),
            };
        }
    }
    Run {
        trace: d.trace.iter().map(|c| (c.options, c.taken)).collect(),
        switches: d.switches,
        steals: d.steals,
        stalls: d.stalls,
        diverged: d.diverged,
        verdict,
    }
}

// The same in a child process; the caller must be single threaded.
fn execute_apart(c: &Config, prefix: &[usize]) -> Run {
    use std::io::{Read, Write};
    use std::os::unix::io::FromRawFd;
    c.roots.iter().for_each(|op| drop(ops::expected(op)));
    let mut fds = [0; 2];
    assert_eq!(0, unsafe { libc::pipe(fds.as_mut_ptr()) });
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        let r = execute_here(c, prefix);
        let mut text = format!("{} {} {} {}", r.switches, r.steals, r.stalls, r.diverged as u64);
        for (o, t) in &r.trace {
            text.push_str(&format!(" {} {}", o, t));
        }
        text.push('\n');
        if let Err(e) = r.verdict {
            text.push_str(&e.replace('\n', " "));
        }
        let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = out.write_all(text.as_bytes());
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut text = String::new();
    let _ = unsafe { std::fs::File::from_raw_fd(fds[0]) }.read_to_string(&mut text);
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    let (head, tail) = text.split_once('\n').unwrap_or(("0 0 0 0", ""));
    let n: Vec<u64> = head.split_whitespace().map(|x| x.parse().unwrap()).collect();
    Run {
        trace: n[4..].chunks(2).map(|c| (c[0] as usize, c[1] as usize)).collect(),
        switches: n[0],
        steals: n[1],
        stalls: n[2],
        diverged: n[3] != 0,
        verdict: if status != 0 {
            Err(format!("the process ended with status {:#x}", status))
        } else if tail.is_empty() {
            Ok(())
        } else {
            Err(tail.to_string())
        },
    }
}

pub fn execute(c: &Config, prefix: &[usize]) -> Run {
    if c.cold {
        execute_apart(c, prefix)
    } else {
        execute_here(c, prefix)
    }
}

#[derive(Default)]
pub struct Totals {
    pub executions: u64,
    pub switches: u64,
    pub steals: u64,
    pub longest: usize,
}

/// All executions of a configuration whose first deviation lies at a position
/// that is `shard` modulo `shards`.
pub fn explore(ctx: &Ctx, c: &Config, shard: usize, shards: usize, cap: u64) -> Totals {
    let mut t = Totals::default();
    let mut todo: Vec<Vec<usize>> = vec![vec![]];
    let mut stalls = 0;
    while let Some(prefix) = todo.pop() {
        if ctx.stopped() {
            break;
        }
        if t.executions >= cap {
            ctx.capped(format!("{:?}: stopped after {} executions in one shard", c, cap));
            break;
        }
        let mut run = None;
        ctx.guard("sched", &c.case(&prefix), || {
            let r = execute(c, &prefix);
            let v = r.verdict.clone();
            run = Some(r);
            v
        });
        let r = match run {
            Some(r) if r.verdict.is_ok() => r,
            _ => break,
        };
        if r.diverged {
            ctx.capped(format!("{:?}: a replayed schedule took another course", c));
        }
        stalls += r.stalls;
        if stalls > 20 {
            ctx.capped(format!("{:?}: workers block each other outside the scheduler; given up after {} executions", c, t.executions));
            break;
        }
        if !prefix.is_empty() || shard == 0 {
            t.executions += 1;
            t.switches += r.switches;
            t.steals += r.steals;
        }
        t.longest = std::cmp::max(t.longest, r.trace.len());
        let taken: Vec<usize> = r.trace.iter().map(|c| c.1).collect();
        for i in (prefix.len()..r.trace.len()).rev() {
            if prefix.is_empty() && i % shards != shard {
                continue;
            }
            for alt in 1..r.trace[i].0 {
                let mut p = taken[..i].to_vec();
                p.push(alt);
                todo.push(p);
            }
        }
    }
    t
}
