//! Rayon's fork-join calls, delegated to a scheduler the harness installs.
//! Without one they run in order on the calling thread.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub type Join = fn(&mut (dyn FnMut() + Send), &mut (dyn FnMut() + Send));

static JOIN: AtomicUsize = AtomicUsize::new(0);

pub fn set_join(f: Option<Join>) {
    JOIN.store(f.map_or(0, |f| f as usize), Ordering::SeqCst);
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (mut a, mut b) = (Some(a), Some(b));
    let (mut ra, mut rb) = (None, None);
    {
        let mut fa = || ra = Some((a.take().expect("run once"))());
        let mut fb = || rb = Some((b.take().expect("run once"))());
        let j = JOIN.load(Ordering::Relaxed);
        if j == 0 {
            fa();
            fb();
        } else {
            let j: Join = unsafe { std::mem::transmute(j) };
            j(&mut fa, &mut fb);
        }
    }
    (ra.expect("first half ran"), rb.expect("second half ran"))
}

#[derive(Clone, Copy, Debug)]
pub struct FnContext(bool);
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.0
    }
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let here = current_thread_index();
    let moved = move || FnContext(current_thread_index() != here);
    join(|| a(moved()), || b(moved()))
}

type Task<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;

pub struct Scope<'scope> {
    tasks: Mutex<Vec<Task<'scope>>>,
}

impl<'scope> Scope<'scope> {
    pub fn spawn<F>(&self, f: F)
    where
        F: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.tasks.lock().unwrap().push(Box::new(f));
    }
}

fn run_all<'scope>(s: &Scope<'scope>, mut tasks: Vec<Task<'scope>>) {
    match tasks.len() {
        0 => {}
        1 => (tasks.pop().unwrap())(s),
        n => {
            let right = tasks.split_off(n / 2);
            join(|| run_all(s, tasks), || run_all(s, right));
        }
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { tasks: Mutex::new(Vec::new()) };
    let r = op(&s);
    loop {
        let tasks = std::mem::take(&mut *s.tasks.lock().unwrap());
        if tasks.is_empty() {
            return r;
        }
        run_all(&s, tasks);
    }
}

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    scope(op)
}

static THREADS: AtomicUsize = AtomicUsize::new(4);

pub fn set_threads(n: usize) {
    THREADS.store(n, Ordering::SeqCst);
}

pub fn current_num_threads() -> usize {
    THREADS.load(Ordering::Relaxed)
}

pub fn max_num_threads() -> usize {
    current_num_threads()
}

static INDEX: AtomicUsize = AtomicUsize::new(0);

pub fn set_index(f: Option<fn() -> Option<usize>>) {
    INDEX.store(f.map_or(0, |f| f as usize), Ordering::SeqCst);
}

pub fn current_thread_index() -> Option<usize> {
    match INDEX.load(Ordering::Relaxed) {
        0 => Some(0),
        f => {
            let f: fn() -> Option<usize> = unsafe { std::mem::transmute(f) };
            f()
        }
    }
}
