//! The controlled scheduler. Threads of the pool run one at a time; each stops before every
//! visible operation and the choice of the next thread is a branch of a depth-first search.
use real::{
    boxed::Box, cell::Cell, collections::BTreeMap, eprintln, format, prelude::v1::*, string::String, sync::Arc,
    sync::Condvar, sync::Mutex, vec, vec::Vec,
};

pub const MAX: usize = 4;
/// beyond this many steps an execution is scheduled round-robin, beyond the second it is a livelock
const FAIR: usize = 600;
const LIVELOCK: usize = 20_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Start,
    Begin,
    Atomic,
    Read,
    Try,
    /// first attempt to lock exclusively: takes the lock if it is free, else queues
    Write,
    Queued,
    Lock,
    Release,
    Wait,
    Yield,
}
#[derive(Default, Debug)]
struct Obj {
    writer: Option<usize>,
    readers: Vec<usize>,
    queued: Vec<usize>,
}
struct State {
    n: usize,
    cur: usize,
    pend: [Option<(Op, usize)>; MAX],
    done: [bool; MAX],
    registered: usize,
    yielded_at: [usize; MAX],
    last_other: usize,
    objs: BTreeMap<usize, Obj>,
    notified: Vec<usize>,
    waiting: Vec<(usize, usize)>, // (thread, condvar)
    path: Vec<(u8, u8)>,
    pos: usize,
    steps: usize,
    preemptions: usize,
    bound: usize,
    points: u64,
    trace: Vec<(u8, Op)>,
    diverged: u64,
    job: Option<Job>,
    gen: u64,
    label: String,
}
#[derive(Clone)]
struct Job(Arc<dyn Fn(usize) + Send + Sync>);

const NONE: usize = usize::MAX;
struct Rt {
    st: Mutex<State>,
    cv: [Condvar; MAX],
    ctl: Condvar,
    pool: Condvar,
}
static RT: Rt = Rt {
    st: Mutex::new(State {
        n: 0,
        cur: NONE,
        pend: [None; MAX],
        done: [false; MAX],
        registered: 0,
        yielded_at: [0; MAX],
        last_other: 0,
        objs: BTreeMap::new(),
        notified: Vec::new(),
        waiting: Vec::new(),
        path: Vec::new(),
        pos: 0,
        steps: 0,
        preemptions: 0,
        bound: 0,
        points: 0,
        trace: Vec::new(),
        diverged: 0,
        job: None,
        gen: 0,
        label: String::new(),
    }),
    cv: [const { Condvar::new() }; MAX],
    ctl: Condvar::new(),
    pool: Condvar::new(),
};
real::thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static ATOMICALLY: Cell<usize> = const { Cell::new(0) };
}
fn me() -> usize {
    ME.try_with(Cell::get).unwrap_or(NONE)
}
type G = real::sync::MutexGuard<'static, State>;
fn st() -> G {
    RT.st.lock().unwrap_or_else(|e| e.into_inner())
}

impl State {
    fn enabled(&self, t: usize) -> bool {
        let Some((op, o)) = self.pend[t] else { return false };
        let obj = self.objs.get(&o);
        match op {
            Op::Read => obj.is_none_or(|x| x.writer.is_none() && x.queued.iter().all(|q| *q == t)),
            Op::Queued => obj.is_none_or(|x| x.writer.is_none() && x.readers.is_empty()),
            Op::Lock => obj.is_none_or(|x| x.writer.is_none()),
            Op::Wait => self.notified.contains(&t),
            _ => true,
        }
    }
    /// choose the next thread to run; `from` just stopped or finished
    fn choose(&mut self, from: usize) -> usize {
        let mut on: Vec<usize> = (0..self.n).filter(|t| !self.done[*t] && self.enabled(*t)).collect();
        if on.is_empty() {
            if (0..self.n).all(|t| self.done[t]) {
                return NONE;
            }
            self.die("deadlock: no thread can proceed");
        }
        // a thread that yields lets another one run first
        let awake: Vec<usize> = on
            .iter()
            .copied()
            .filter(|t| !matches!(self.pend[*t], Some((Op::Yield, _))) || self.last_other_than(*t) > self.yielded_at[*t])
            .collect();
        if !awake.is_empty() {
            on = awake;
        }
        self.steps += 1;
        self.points += 1;
        if self.steps > LIVELOCK {
            self.die("livelock: no progress under a fair schedule");
        }
        if self.steps > FAIR {
            return *on.iter().find(|t| **t > from).unwrap_or(&on[0]);
        }
        let here = on.iter().position(|t| *t == from);
        let free = match here {
            None => true,
            Some(_) => matches!(self.pend[from], Some((Op::Begin | Op::Start | Op::Yield, _))),
        };
        if let Some(i) = here {
            on.remove(i);
            on.insert(0, from);
            if !free && self.preemptions >= self.bound {
                on.truncate(1);
            }
        }
        let k = if on.len() == 1 {
            0
        } else {
            let n = on.len() as u8;
            if self.pos < self.path.len() {
                if self.path[self.pos].1 != n {
                    self.diverged += 1;
                    self.path.truncate(self.pos);
                    self.path.push((0, n));
                }
            } else {
                self.path.push((0, n));
            }
            let k = self.path[self.pos].0 as usize;
            self.pos += 1;
            k
        };
        if k > 0 && !free {
            self.preemptions += 1;
        }
        on[k]
    }
    fn last_other_than(&self, t: usize) -> usize {
        self.trace.iter().rposition(|(x, _)| *x as usize != t).map_or(0, |i| i + 1)
    }
    fn die(&self, why: &str) -> ! {
        eprintln!(
            "{}: {why}\n  pending: {:?}\n  locks: {:?}\n  schedule: {}",
            self.label,
            &self.pend[..self.n],
            self.objs.values().collect::<Vec<_>>(),
            self.schedule()
        );
        real::process::abort()
    }
    fn schedule(&self) -> String {
        let mut s = String::new();
        for (t, op) in self.trace.iter().take(200) {
            s += &format!("T{t}:{op:?} ");
        }
        s
    }
    fn granted(&mut self, t: usize) {
        let Some((op, o)) = self.pend[t] else { return };
        self.trace.push((t as u8, op));
        let free = |x: &Obj| x.writer.is_none() && x.readers.is_empty();
        match op {
            Op::Read => self.objs.entry(o).or_default().readers.push(t),
            Op::Write => {
                let x = self.objs.entry(o).or_default();
                if free(x) {
                    x.writer = Some(t);
                } else {
                    x.queued.push(t);
                    self.pend[t] = Some((Op::Queued, o));
                    return;
                }
            }
            Op::Queued | Op::Lock => {
                let x = self.objs.entry(o).or_default();
                x.queued.retain(|q| *q != t);
                x.writer = Some(t);
            }
            Op::Wait => self.notified.retain(|x| *x != t),
            _ => {}
        }
        self.pend[t] = None;
    }
}

fn stop(mut g: G, t: usize, op: Op, o: usize) -> G {
    g.pend[t] = Some((op, o));
    if op == Op::Yield {
        g.yielded_at[t] = g.trace.len();
    }
    while g.pend[t].is_some() {
        let next = g.choose(t);
        g.cur = next;
        if next != t {
            RT.cv[next].notify_one();
            while g.cur != t {
                g = RT.cv[t].wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        g.granted(t);
    }
    g
}
/// a scheduling point; returns false outside controlled threads
pub(crate) fn point(op: Op, o: usize) -> bool {
    let t = me();
    if t == NONE || real::thread::panicking() {
        return false;
    }
    let mut g = st();
    if ATOMICALLY.with(Cell::get) > 0 {
        g.pend[t] = Some((op, o));
        if g.enabled(t) {
            g.granted(t);
        }
        if g.pend[t].is_none() {
            return true;
        }
        let (op, o) = g.pend[t].take().unwrap();
        drop(stop(g, t, op, o));
        return true;
    }
    drop(stop(g, t, op, o));
    true
}
/// after a granted Try: take the lock if possible
pub(crate) fn take(o: usize, exclusive: bool) -> bool {
    let t = me();
    if t == NONE {
        return true;
    }
    let mut g = st();
    let x = g.objs.entry(o).or_default();
    if x.writer.is_some() || (exclusive && !x.readers.is_empty()) {
        return false;
    }
    if exclusive {
        x.writer = Some(t);
    } else {
        x.readers.push(t);
    }
    true
}
/// forget that this thread holds the lock
pub(crate) fn untake(o: usize) {
    let t = me();
    if t == NONE {
        return;
    }
    let mut g = st();
    if let Some(x) = g.objs.get_mut(&o) {
        if x.writer == Some(t) {
            x.writer = None;
        } else if let Some(i) = x.readers.iter().position(|r| *r == t) {
            x.readers.remove(i);
        }
    }
}
pub(crate) fn wait_on(cv: usize) {
    let t = me();
    let mut g = st();
    g.waiting.push((t, cv));
    drop(stop(g, t, Op::Wait, cv));
}
pub(crate) fn notify(cv: usize, all: bool) {
    point(Op::Atomic, cv);
    let mut g = st();
    while let Some(i) = g.waiting.iter().position(|w| w.1 == cv) {
        let (t, _) = g.waiting.remove(i);
        g.notified.push(t);
        if !all {
            break;
        }
    }
}
pub(crate) fn controlled() -> bool {
    me() != NONE
}
pub(crate) fn yielding() {
    if !point(Op::Yield, 0) {
        real::thread::yield_now();
    }
}
/// run `f` without switching threads, as far as possible
pub(crate) fn atomically<T>(f: impl FnOnce() -> T) -> T {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            ATOMICALLY.with(|a| a.set(a.get() - 1));
        }
    }
    ATOMICALLY.with(|a| a.set(a.get() + 1));
    let _d = D;
    f()
}

/// the next call of this thread begins
pub fn begin() {
    point(Op::Begin, 0);
}
/// logical time
pub fn now() -> usize {
    use real::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static T: AtomicUsize = AtomicUsize::new(0);
    T.fetch_add(1, SeqCst)
}

fn pool_thread(t: usize) {
    let mut seen = 0;
    loop {
        let mut g = st();
        while g.gen == seen || t >= g.n {
            if t >= g.n {
                seen = g.gen;
            }
            g = RT.pool.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        seen = g.gen;
        let job = g.job.clone().unwrap();
        g.pend[t] = Some((Op::Start, 0));
        g.registered += 1;
        if g.registered == g.n {
            RT.ctl.notify_one();
        }
        while g.cur != t {
            g = RT.cv[t].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.granted(t);
        drop(g);
        ME.with(|m| m.set(t));
        (job.0)(t);
        ME.with(|m| m.set(NONE));
        drop(job);
        let mut g = st();
        g.done[t] = true;
        let next = g.choose(t);
        g.cur = next;
        if next == NONE {
            RT.ctl.notify_one();
        } else {
            RT.cv[next].notify_one();
        }
    }
}

pub struct Explored {
    pub schedules: u64,
    pub points: u64,
    pub diverged: u64,
    pub complete: bool,
    pub failure: Option<String>,
}
/// Run `body(thread)` on `n` threads under every schedule with at most `bound` preemptions;
/// `setup` runs before and `check` after each.
pub fn explore(
    label: &str,
    n: usize,
    bound: usize,
    limit: u64,
    body: Arc<dyn Fn(usize) + Send + Sync>,
    mut setup: impl FnMut() -> Result<(), String>,
    mut check: impl FnMut() -> Result<(), String>,
) -> Explored {
    static POOL: real::sync::Once = real::sync::Once::new();
    POOL.call_once(|| {
        for t in 0..MAX {
            real::thread::Builder::new().name(format!("T{t}")).spawn(move || pool_thread(t)).unwrap();
        }
    });
    let mut e = Explored { schedules: 0, points: 0, diverged: 0, complete: false, failure: None };
    {
        let mut g = st();
        g.path.clear();
        g.points = 0;
        g.diverged = 0;
        g.label = label.into();
    }
    loop {
        if let Err(m) = setup() {
            e.failure = Some(m);
            break;
        }
        let mut g = st();
        g.n = n;
        g.cur = NONE;
        g.pend = [None; MAX];
        g.done = [false; MAX];
        g.registered = 0;
        g.yielded_at = [0; MAX];
        g.objs.clear();
        g.notified.clear();
        g.waiting.clear();
        g.pos = 0;
        g.steps = 0;
        g.preemptions = 0;
        g.bound = bound;
        g.trace.clear();
        g.job = Some(Job(body.clone()));
        g.gen += 1;
        RT.pool.notify_all();
        while g.registered < n {
            g = RT.ctl.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        let first = g.choose(NONE);
        g.cur = first;
        RT.cv[first].notify_one();
        while !(0..n).all(|t| g.done[t]) {
            g = RT.ctl.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        e.schedules += 1;
        let sched = if e.failure.is_none() { String::new() } else { g.schedule() };
        drop(g);
        let _ = sched;
        if let Err(m) = check() {
            e.failure = Some(format!("{m}; schedule {}", st().schedule()));
            break;
        }
        let mut g = st();
        while g.path.last().is_some_and(|(k, n)| k + 1 >= *n) {
            g.path.pop();
        }
        match g.path.last_mut() {
            None => {
                e.complete = true;
                break;
            }
            Some(l) => l.0 += 1,
        }
        if e.schedules >= limit {
            break;
        }
    }
    let mut g = st();
    e.points = g.points;
    e.diverged = g.diverged;
    g.job = None;
    e
}
#[allow(dead_code)]
fn _unused() -> Box<[u8]> {
    vec![].into()
}
