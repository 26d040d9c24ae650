//! A work-stealing pool whose every scheduling decision is a choice of the
//! explorer. One worker runs at a time; it can be switched at every fork, at
//! every point of the code under test, and wherever it has nothing to do.
//!
//! What happens when the explorer does not interfere depends on the policy:
//! 0: a worker goes on for as long as it can; only taking the turn away from
//!    a running worker counts as a deviation.
//! 1: the workers take turns at every point.
//! 2: work is stolen as soon as someone can steal it, then as 1.
//! Under 1 and 2 every choice other than the default counts.

use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

type Task = *mut (dyn FnMut() + Send);

struct Job {
    task: Task,
    state: Mutex<(bool, Option<Box<dyn Any + Send>>)>,
}
unsafe impl Send for Job {}
unsafe impl Sync for Job {}

impl Job {
    fn done(&self) -> bool {
        self.state.lock().unwrap().0
    }
}

#[derive(Clone)]
enum Worker {
    Running,
    Waiting(Arc<Job>),
    Idle,
}

pub struct Choice {
    pub options: usize,
    pub taken: usize,
}

struct State {
    current: usize,
    workers: Vec<Worker>,
    deques: Vec<VecDeque<Arc<Job>>>,
    prefix: Vec<usize>,
    trace: Vec<Choice>,
    policy: u64,
    preemptions: usize,
    bound: usize,
    roots_left: usize,
    switches: u64,
    steals: u64,
    over: bool,
    error: Option<String>,
    diverged: bool,
    // Asleep inside the scheduler, rather than in the code under test.
    parked: Vec<bool>,
    stalls: u64,
}

pub struct Exec {
    state: Mutex<State>,
    wake: Vec<Condvar>,
    ended: Condvar,
}

pub struct Done {
    pub trace: Vec<Choice>,
    pub switches: u64,
    pub steals: u64,
    pub error: Option<String>,
    /// The prefix did not fit: the code behaved differently this time.
    pub diverged: bool,
    /// How often a worker held the turn without reaching the scheduler.
    pub stalls: u64,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}

fn current() -> Option<(Arc<Exec>, usize)> {
    CUR.with(|c| c.borrow().clone())
}

fn key(j: &Arc<Job>) -> usize {
    Arc::as_ptr(j) as *const u8 as usize
}

impl Exec {
    // Picks an option; options beyond the first count as a deviation.
    fn choose(s: &mut State, options: usize) -> usize {
        if options <= 1 || s.policy != 0 && s.preemptions >= s.bound {
            return 0;
        }
        let i = s.trace.len();
        let mut taken = s.prefix.get(i).copied().unwrap_or(0);
        if taken >= options {
            s.diverged = true;
            taken = 0;
        }
        s.trace.push(Choice { options, taken });
        if s.policy != 0 && taken != 0 {
            s.preemptions += 1;
        }
        taken
    }

    fn stealable(s: &State, w: usize) -> bool {
        (0..s.deques.len()).any(|v| v != w && !s.deques[v].is_empty())
    }

    fn enabled(s: &State, w: usize) -> bool {
        match &s.workers[w] {
            Worker::Running => true,
            Worker::Waiting(j) => j.done() || !s.deques[w].is_empty() || Self::stealable(s, w),
            Worker::Idle => Self::stealable(s, w),
        }
    }

    // Decide who goes on, and wait until it is this worker's turn again.
    // Returns false when the execution is over.
    fn switch<'a>(&'a self, mut s: MutexGuard<'a, State>, w: usize) -> (MutexGuard<'a, State>, bool) {
        s.switches += 1;
        // Only after a stall can someone arrive without having the turn.
        s = self.park(s, w);
        if s.over {
            return (s, false);
        }
        let n = s.workers.len();
        let running = matches!(s.workers[w], Worker::Running);
        let mut options: Vec<usize> = vec![];
        if Self::enabled(&s, w) {
            options.push(w);
        }
        if s.policy != 0 || !(running && s.preemptions >= s.bound) {
            for i in 1..n {
                let v = if s.policy == 0 { if i <= w { i - 1 } else { i } } else { (w + i) % n };
                if s.parked[v] && Self::enabled(&s, v) {
                    options.push(v);
                }
            }
        }
        if s.policy != 0 && options.first() == Some(&w) {
            options.rotate_left(1);
        }
        if s.policy == 2 {
            options.sort_by_key(|&v| matches!(s.workers[v], Worker::Running));
        }
        if options.is_empty() {
            // Whoever stalls may still come back with work.
            if s.stalls == 0 {
                s.error.get_or_insert("deadlock: every worker waits".to_string());
                self.end(&mut s);
                return (s, false);
            }
            s.current = usize::MAX;
            s = self.park(s, w);
            let over = s.over;
            return (s, !over);
        }
        let pick = options[Self::choose(&mut s, options.len())];
        if pick != w {
            if running && s.policy == 0 {
                s.preemptions += 1;
            }
            s.current = pick;
            self.wake[pick].notify_one();
            s = self.park(s, w);
        }
        let over = s.over;
        (s, !over)
    }

    fn park<'a>(&'a self, mut s: MutexGuard<'a, State>, w: usize) -> MutexGuard<'a, State> {
        s.parked[w] = true;
        while s.current != w && !s.over {
            if s.current == usize::MAX && Self::enabled(&s, w) {
                s.current = w;
                break;
            }
            s = self.wake[w].wait(s).unwrap();
        }
        s.parked[w] = false;
        s
    }

    fn end(&self, s: &mut State) {
        s.over = true;
        for c in &self.wake {
            c.notify_all();
        }
        self.ended.notify_all();
    }

    // The turn goes to someone else if its owner does not come back: it may be
    // blocked by a lock of the code under test that another worker holds.
    fn supervise(&self) {
        let mut s = self.state.lock().unwrap();
        let mut seen = (s.switches, s.current, 0);
        while !s.over {
            let (g, t) = self.ended.wait_timeout(s, Duration::from_millis(300)).unwrap();
            s = g;
            if !t.timed_out() || s.over {
                continue;
            }
            if (s.switches, s.current) != (seen.0, seen.1) {
                seen = (s.switches, s.current, 0);
                continue;
            }
            seen.2 += 1;
            s.stalls += 1;
            let n = s.workers.len();
            let next = (0..n).find(|&v| s.parked[v] && v != s.current && Self::enabled(&s, v));
            match next {
                Some(v) => {
                    s.current = v;
                    self.wake[v].notify_one();
                }
                None if seen.2 > 30 => {
                    s.error.get_or_insert("deadlock: a worker neither finishes nor lets another go on".to_string());
                    s.deadlock();
                }
                None => {}
            }
        }
    }

    // Own newest work first, then the oldest of someone else's.
    fn find(s: &mut State, w: usize) -> Option<Arc<Job>> {
        if let Some(j) = s.deques[w].pop_back() {
            return Some(j);
        }
        let n = s.deques.len();
        let mut victims: Vec<usize> = (1..n).map(|i| (w + i) % n).filter(|&v| !s.deques[v].is_empty()).collect();
        if s.policy == 0 {
            victims.sort();
        }
        if victims.is_empty() {
            return None;
        }
        let v = victims[Self::choose(s, victims.len())];
        s.steals += 1;
        s.deques[v].pop_front()
    }

    fn perform(&self, job: &Arc<Job>) {
        let r = catch_unwind(AssertUnwindSafe(|| unsafe { (*job.task)() }));
        *job.state.lock().unwrap() = (true, r.err());
    }
}

impl State {
    // Nothing can be cleaned up: the blocked threads still use the stacks.
    fn deadlock(&mut self) {
        eprintln!("{}", self.error.clone().unwrap_or_default());
        unsafe { libc::abort() }
    }
}

pub fn worker_index() -> Option<usize> {
    CUR.with(|c| c.borrow().as_ref().map(|c| c.1))
}

/// A scheduling point inside the code under test.
pub fn point() {
    if let Some((ex, w)) = current() {
        let s = ex.state.lock().unwrap();
        if !s.over {
            let _ = ex.switch(s, w);
        }
    }
}

pub fn join(a: &mut (dyn FnMut() + Send), b: &mut (dyn FnMut() + Send)) {
    let (ex, w) = match current() {
        Some(c) => c,
        None => {
            a();
            b();
            return;
        }
    };
    let task: Task = unsafe { std::mem::transmute::<&mut (dyn FnMut() + Send), Task>(b) };
    let job = Arc::new(Job { task, state: Mutex::new((false, None)) });
    {
        let mut s = ex.state.lock().unwrap();
        s.deques[w].push_back(job.clone());
        drop(ex.switch(s, w));
    }
    let ra = catch_unwind(AssertUnwindSafe(a));
    let mut s = ex.state.lock().unwrap();
    if s.deques[w].back().map_or(false, |j| key(j) == key(&job)) {
        s.deques[w].pop_back();
        drop(s);
        ex.perform(&job);
    } else {
        while !job.done() && !s.over {
            s.workers[w] = Worker::Waiting(job.clone());
            let (g, go) = ex.switch(s, w);
            s = g;
            s.workers[w] = Worker::Running;
            if !go {
                break;
            }
            if !job.done() {
                if let Some(j) = Exec::find(&mut s, w) {
                    drop(s);
                    ex.perform(&j);
                    s = ex.state.lock().unwrap();
                }
            }
        }
        drop(s);
    }
    if let Err(p) = ra {
        resume_unwind(p);
    }
    let p = job.state.lock().unwrap().1.take();
    if let Some(p) = p {
        resume_unwind(p);
    }
}

/// One execution: worker i starts with roots[i], the others are idle.
pub fn run(workers: usize, policy: u64, bound: usize, prefix: &[usize], init: &(dyn Fn() + Sync), roots: &[&(dyn Fn() + Sync)]) -> Done {
    assert!(roots.len() <= workers);
    let ex = Arc::new(Exec {
        state: Mutex::new(State {
            current: 0,
            workers: (0..workers).map(|w| if w < roots.len() { Worker::Running } else { Worker::Idle }).collect(),
            deques: (0..workers).map(|_| VecDeque::new()).collect(),
            prefix: prefix.to_vec(),
            trace: vec![],
            policy,
            preemptions: 0,
            bound,
            roots_left: roots.len(),
            switches: 0,
            steals: 0,
            over: false,
            error: None,
            diverged: false,
            parked: vec![true; workers],
            stalls: 0,
        }),
        wake: (0..workers).map(|_| Condvar::new()).collect(),
        ended: Condvar::new(),
    });
    std::thread::scope(|scope| {
        for w in 0..workers {
            let ex = ex.clone();
            let root = roots.get(w).copied();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(scope, move || {
                    init();
                    CUR.with(|c| *c.borrow_mut() = Some((ex.clone(), w)));
                    drop(ex.park(ex.state.lock().unwrap(), w));
                    if let Some(f) = root {
                        let r = catch_unwind(AssertUnwindSafe(f));
                        let mut s = ex.state.lock().unwrap();
                        if let Err(p) = r {
                            let text = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_else(|| "panic".to_string());
                            s.error.get_or_insert(format!("panic: {}", text));
                        }
                        s.roots_left -= 1;
                        if s.roots_left == 0 {
                            ex.end(&mut s);
                        }
                    }
                    loop {
                        let mut s = ex.state.lock().unwrap();
                        if s.over {
                            break;
                        }
                        if s.current == w && !matches!(s.workers[w], Worker::Running) {
                            // Just woken to steal.
                        } else {
                            s.workers[w] = Worker::Idle;
                            let (g, go) = ex.switch(s, w);
                            s = g;
                            if !go {
                                break;
                            }
                        }
                        s.workers[w] = Worker::Running;
                        if let Some(j) = Exec::find(&mut s, w) {
                            drop(s);
                            ex.perform(&j);
                        }
                    }
                    CUR.with(|c| *c.borrow_mut() = None);
                })
                .expect("spawn");
        }
        ex.supervise();
    });
    let mut s = ex.state.lock().unwrap();
    Done { trace: std::mem::take(&mut s.trace), switches: s.switches, steals: s.steals, error: s.error.take(), diverged: s.diverged, stalls: s.stalls }
}
