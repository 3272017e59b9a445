//! Supervisor / worker split, counters, violations, evidence.
//!
//! The worker executes cases; the label of the case running on each of its threads is kept in a
//! shared file mapping, so that the supervisor can attribute an abort, a signal or a hang.
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
        Mutex,
    },
    time::{Duration, Instant},
};

pub const SLOTS: usize = 32;
pub const SLOT: usize = 4096;
const HANG_SECS: u64 = 150;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    pub threads: usize,
    /// (this worker, number of workers): a property whose cases share process-wide state
    pub shard: (usize, usize),
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    cases: AtomicU64,
    stop: AtomicBool,
    violations: Mutex<Vec<(String, String)>>,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<BTreeSet<String>>,
    map: *mut u8,
    next_slot: AtomicUsize,
}
unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

thread_local! {
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static IN_PAR: Cell<bool> = const { Cell::new(false) };
}

/// memory held by the current thread, and its peak since `mem_peak` started
pub struct Counting;
thread_local! {
    static HELD: Cell<(isize, isize)> = const { Cell::new((0, 0)) };
}
fn held(d: isize) {
    let _ = HELD.try_with(|h| {
        let (c, p) = h.get();
        h.set((c + d, p.max(c + d)));
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        held(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        held(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        held(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        held(n as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, n)
    }
}
/// peak memory `f` held on this thread, in bytes
pub fn mem_peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    HELD.with(|h| h.set((0, 0)));
    let t = f();
    let p = HELD.with(|h| h.get().1);
    (t, p.max(0) as usize)
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        if QUIET.with(Cell::get) == 0 {
            eprintln!("panic outside a case: {msg} at {loc}");
        }
    }));
}

/// Run `f`, turning a panic into Err(message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// pick a bound by tier
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn op(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn outcome(&self, k: &str, n: u64) {
        if n > 0 {
            *self.outcomes.lock().unwrap().entry(k.into()).or_insert(0) += n;
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().insert(s.into());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let s = s();
            v.push(s);
        }
    }
    fn slot(&self) -> usize {
        MY_SLOT.with(|s| {
            if s.get() == usize::MAX {
                s.set(self.next_slot.fetch_add(1, SeqCst) % SLOTS);
            }
            s.get()
        })
    }
    fn set_label(&self, label: Option<&str>) {
        let i = self.slot();
        unsafe {
            let p = self.map.add(i * SLOT);
            let ctr = p.cast::<u64>();
            *ctr += 1;
            let lenp = p.add(8).cast::<u32>();
            match label {
                None => *lenp = 0,
                Some(l) => {
                    let n = l.len().min(SLOT - 16);
                    std::ptr::copy_nonoverlapping(l.as_ptr(), p.add(12), n);
                    *lenp = n as u32;
                }
            }
        }
    }
    /// tell the supervisor that a long case is alive
    pub fn beat(&self) {
        let i = self.slot();
        unsafe {
            *self.map.add(i * SLOT).cast::<u64>() += 1;
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn violation(&self, label: &str, msg: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 40 {
            v.push((label.to_string(), msg));
        }
        if v.len() >= 40 {
            self.stop.store(true, SeqCst);
        }
    }
    /// Run one case. Err or panic = violation. The label is the replay key.
    pub fn case(&self, label: impl AsRef<str>, f: impl FnOnce() -> Result<(), String>) {
        let label = label.as_ref();
        if let Some(o) = &self.only {
            if o != label {
                return;
            }
        }
        if self.stopped() || (self.shard.0 != 0 && !IN_PAR.with(Cell::get)) {
            return;
        }
        self.cases.fetch_add(1, Relaxed);
        self.set_label(Some(label));
        let r = guarded(f);
        self.set_label(None);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.violation(label, m),
            Err(p) => self.violation(label, format!("panicked: {p}")),
        }
    }
    /// Distribute items over threads
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(items.len().max(1)) {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || {
                        IN_PAR.with(|p| p.set(true));
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || self.stopped() {
                                break;
                            }
                            if i % self.shard.1 == self.shard.0 {
                                f(&items[i]);
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }
}

#[derive(serde::Serialize, serde::Deserialize, Default)]
struct Report {
    states: u64,
    transitions: u64,
    traces: u64,
    cases: u64,
    violations: Vec<(String, String)>,
    samples: Vec<String>,
    outcomes: BTreeMap<String, u64>,
    notes: BTreeSet<String>,
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Ctx),
    pub procs: usize,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

fn map_file(path: &str) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(path)
        .unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * SLOT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}

pub fn worker(p: &Prop, tier: Tier, seed: u64, only: Option<String>, shm: &str, out: &str) -> i32 {
    install_hook();
    // no core files, no runaway memory
    unsafe {
        let z = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        let mut m = z;
        libc::getrlimit(libc::RLIMIT_AS, &mut m);
        m.rlim_cur = m.rlim_max.min(24 << 30);
        libc::setrlimit(libc::RLIMIT_AS, &m);
    }
    let shard: (usize, usize) = std::env::var("MC_SHARD")
        .ok()
        .and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())))
        .unwrap_or((0, 1));
    let threads = if p.procs > 1 { 1 } else { 8 };
    let ctx = Ctx {
        tier,
        seed,
        only,
        threads,
        shard,
        states: 0.into(),
        transitions: 0.into(),
        traces: 0.into(),
        cases: 0.into(),
        stop: false.into(),
        violations: Mutex::default(),
        samples: Mutex::default(),
        outcomes: Mutex::default(),
        notes: Mutex::default(),
        map: map_file(shm),
        next_slot: 0.into(),
    };
    (p.run)(&ctx);
    let rep = Report {
        states: ctx.states.load(SeqCst),
        transitions: ctx.transitions.load(SeqCst),
        traces: ctx.traces.load(SeqCst),
        cases: ctx.cases.load(SeqCst),
        violations: ctx.violations.into_inner().unwrap(),
        samples: ctx.samples.into_inner().unwrap(),
        outcomes: ctx.outcomes.into_inner().unwrap(),
        notes: ctx.notes.into_inner().unwrap(),
    };
    std::fs::write(out, serde_json::to_vec(&rep).unwrap()).unwrap();
    0
}

enum End {
    Report(Report),
    Crash(String, Vec<String>), // what, active labels
    Error(String),
}

fn spawn_worker(p: &Prop, tier: Tier, seed: u64, only: Option<&str>, dir: &str, shard: (usize, usize)) -> End {
    std::fs::create_dir_all(dir).unwrap();
    let shm = format!("{dir}/shm");
    let out = format!("{dir}/out");
    let _ = std::fs::remove_file(&out);
    std::fs::write(&shm, vec![0u8; SLOTS * SLOT]).unwrap();
    let map = map_file(&shm);
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg("worker")
        .arg(p.id)
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(seed.to_string())
        .arg(&shm)
        .arg(&out);
    cmd.env("MC_SHARD", format!("{}/{}", shard.0, shard.1));
    if let Some(o) = only {
        cmd.arg(o);
    }
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return End::Error(format!("cannot start worker: {e}")),
    };
    let slot = |i: usize| unsafe {
        let p = map.add(i * SLOT);
        let ctr = std::ptr::read_volatile(p.cast::<u64>());
        let n = std::ptr::read_volatile(p.add(8).cast::<u32>()) as usize;
        let mut v = vec![0u8; n.min(SLOT - 16)];
        std::ptr::copy_nonoverlapping(p.add(12), v.as_mut_ptr(), v.len());
        (ctr, String::from_utf8_lossy(&v).into_owned())
    };
    let mut seen: Vec<(u64, Instant)> = (0..SLOTS).map(|_| (0, Instant::now())).collect();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return End::Error(e.to_string()),
        }
        std::thread::sleep(Duration::from_millis(20));
        for (i, s) in seen.iter_mut().enumerate() {
            let (c, l) = slot(i);
            if c != s.0 || l.is_empty() {
                *s = (c, Instant::now());
            } else if s.1.elapsed() > Duration::from_secs(HANG_SECS) {
                let _ = child.kill();
                let _ = child.wait();
                return End::Crash(format!("no progress for {HANG_SECS}s (hang)"), vec![l]);
            }
        }
    };
    use std::os::unix::process::ExitStatusExt;
    if status.success() {
        match std::fs::read(&out)
            .map_err(|e| e.to_string())
            .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
        {
            Ok(r) => End::Report(r),
            Err(e) => End::Error(format!("worker left no report: {e}")),
        }
    } else if matches!(
        status.signal(),
        Some(libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE)
    ) {
        let mut l: Vec<_> = (0..SLOTS)
            .map(|i| slot(i).1)
            .filter(|l| !l.is_empty())
            .collect();
        l.sort();
        l.dedup();
        End::Crash(format!("process killed by {status}"), l)
    } else {
        End::Error(format!("worker ended with {status}"))
    }
}

/// several workers: the worst end, or the sum of their reports
fn merge(ends: Vec<End>) -> End {
    let mut sum = Report::default();
    let mut crash: Option<(String, Vec<String>)> = None;
    for e in ends {
        match e {
            End::Error(e) => return End::Error(e),
            End::Crash(w, l) => crash = Some((w, [crash.map_or(vec![], |c| c.1), l].concat())),
            End::Report(r) => {
                sum.states += r.states;
                sum.transitions += r.transitions;
                sum.traces += r.traces;
                sum.cases += r.cases;
                sum.violations.extend(r.violations);
                sum.samples.extend(r.samples);
                sum.samples.truncate(12);
                for (k, n) in r.outcomes {
                    *sum.outcomes.entry(k).or_insert(0) += n;
                }
                sum.notes.extend(r.notes);
            }
        }
    }
    match crash {
        Some((w, l)) => End::Crash(w, l),
        None => End::Report(sum),
    }
}

fn known(verif: &str) -> Vec<(String, String)> {
    // open: property=P06 case=<label> | text
    std::fs::read_to_string(format!("{verif}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("open: property=")?;
            let (p, rest) = l.split_once(" case=")?;
            let (c, _) = rest.split_once(" | ")?;
            Some((p.to_string(), c.to_string()))
        })
        .collect()
}

pub fn supervise(p: &Prop, tier: Tier, seed: u64, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let dir = format!("{verif}/target/run/{}-{}", p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let end = if p.procs > 1 && only.is_none() {
        let ends: Vec<End> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..p.procs)
                .map(|k| {
                    let d = format!("{dir}/{k}");
                    s.spawn(move || spawn_worker(p, tier, seed, None, &d, (k, p.procs)))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        merge(ends)
    } else {
        spawn_worker(p, tier, seed, only, &dir, (0, 1))
    };
    let rep = match end {
        End::Report(r) => r,
        End::Error(e) => {
            eprintln!("ERROR: {e}");
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
        End::Crash(what, labels) => {
            let mut rep = Report::default();
            if labels.is_empty() {
                eprintln!("ERROR: worker crashed outside any case: {what}");
                let _ = std::fs::remove_dir_all(&dir);
                return 2;
            }
            // attribute: rerun each candidate alone
            if labels.len() > 1 {
                for l in &labels {
                    if let End::Crash(w, _) = spawn_worker(p, tier, seed, Some(l), &dir, (0, 1)) {
                        rep.violations.push((l.clone(), w));
                    }
                }
            }
            if rep.violations.is_empty() {
                rep.violations
                    .push((labels[0].clone(), format!("{what}; running: {labels:?}")));
            }
            rep.samples = labels;
            rep
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    let known = known(&verif);
    let mut bad = vec![];
    let mut known_hit = BTreeSet::new();
    for (l, m) in &rep.violations {
        if known.iter().any(|(kp, kc)| kp == p.id && kc == l) {
            if known_hit.insert(l.clone()) {
                println!("KNOWN-FINDING: property={} {} {}", p.id, l, m);
            }
        } else {
            bad.push((l.clone(), m.clone()));
        }
    }
    // sort: simplest (shortest) counterexample first
    bad.sort_by_key(|(l, _)| l.len());
    if only.is_none() {
        let ev = serde_json::json!({
            "property": p.id,
            "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": rep.states,
                "transitions": rep.transitions,
                "traces_validated_against_impl": rep.traces,
                "cases": rep.cases,
                "samples": rep.samples,
                "outcomes": rep.outcomes,
                "bounds": p.bounds,
                "notes": rep.notes,
                "exhaustive": bad.is_empty(),
            },
            "assumptions": p.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": bad.len(),
        });
        let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
        std::fs::write(
            format!("{verif}/evidence/{}.json", p.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
    }
    println!(
        "{} {:?}: states={} transitions={} traces={} cases={} outcomes={:?} wall={:.1}s",
        p.id,
        tier,
        rep.states,
        rep.transitions,
        rep.traces,
        rep.cases,
        rep.outcomes,
        t0.elapsed().as_secs_f64()
    );
    if bad.is_empty() {
        return 0;
    }
    let _ = std::fs::create_dir_all(format!("{verif}/replays"));
    let path = format!("{verif}/replays/{}.txt", p.id);
    let mut f = std::fs::File::create(&path).unwrap();
    for (l, m) in bad.iter().take(20) {
        writeln!(
            f,
            "case: {l}\nwhat: {m}\nreplay: VERIF_TIER={} {verif}/check.sh {} --only '{l}'\n",
            if tier == Tier::Quick { "quick" } else { "thorough" },
            p.id
        )
        .unwrap();
    }
    for (l, m) in bad.iter().take(5) {
        println!("  case {l}: {m}");
    }
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}
