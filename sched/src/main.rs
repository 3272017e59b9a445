//! P19: C caches and error reports under every schedule of small programs, judged by
//! linearisability against a map of live caches.
#[path = "../../harness/src/sup.rs"]
#[allow(dead_code)]
mod sup;
use cosmian_abe_gpsw::interfaces::{
    abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis},
    ffi::{error::*, generate_gpsw_keys::*, hybrid_gpsw_aes::*},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    ffi::CString,
    os::raw::{c_char, c_int},
    sync::{Arc, Mutex},
};
use stdshim::rt;
use sup::*;

const REAL: bool = cfg!(feature = "real");
const SLOTS_PER: usize = 3;

// ------------------------------------------------------------------ objects

struct World {
    pol: CString,
    attrs: CString,
    uid: Vec<u8>,
    pk: Vec<u8>,
    uk: Vec<u8>,
    key: Vec<u8>,
    header: Vec<u8>,
}
fn cs(s: impl Into<Vec<u8>>) -> CString {
    CString::new(s).unwrap()
}
fn err_text() -> String {
    let mut b = vec![0u8; 4096];
    let mut n = b.len() as c_int;
    let rc = unsafe { get_last_error(b.as_mut_ptr().cast(), &mut n) };
    if rc != 0 {
        return format!("<get_last_error returned {rc}>");
    }
    String::from_utf8_lossy(&b[..n.max(0) as usize]).into_owned()
}
fn decrypt(uk: &[u8], header: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut k, mut u, mut a) = (vec![0u8; 64], vec![0u8; 64], vec![0u8; 64]);
    let (mut kl, mut ul, mut al) = (64, 64, 64);
    let rc = unsafe {
        h_aes_decrypt_header(
            k.as_mut_ptr().cast(),
            &mut kl,
            u.as_mut_ptr().cast(),
            &mut ul,
            a.as_mut_ptr().cast(),
            &mut al,
            header.as_ptr().cast(),
            header.len() as c_int,
            uk.as_ptr().cast(),
            uk.len() as c_int,
        )
    };
    (rc == 0).then(|| {
        k.truncate(kl as usize);
        u.truncate(ul as usize);
        (k, u)
    })
}
impl World {
    fn new(v: usize) -> Result<World, String> {
        let e = |m: &str| format!("{m}: {}", err_text());
        let ax = format!("Axis{v}");
        let mut p = Policy::new(1);
        p.add_axis(&PolicyAxis::new(&ax, &["on"], false)).map_err(|e| e.to_string())?;
        let pol = cs(serde_json::to_string(&p).unwrap());
        let at = Attribute::new(&ax, "on");
        let attrs = cs(serde_json::to_string(&vec![at.clone()]).unwrap());
        let access = cs(serde_json::to_string(&AccessPolicy::Attr(at)).unwrap());
        let mut m = vec![0u8; 4096];
        let mut n = 4096;
        if unsafe { h_generate_master_keys(m.as_mut_ptr().cast(), &mut n, pol.as_ptr()) } != 0 {
            return Err(e("h_generate_master_keys"));
        }
        m.truncate(n as usize);
        let l = u32::from_be_bytes(m[..4].try_into().unwrap()) as usize;
        let (sk, pk) = (m[4..4 + l].to_vec(), m[4 + l..].to_vec());
        let mut uk = vec![0u8; 4096];
        let mut n = 4096;
        let rc = unsafe {
            h_generate_user_private_key(
                uk.as_mut_ptr().cast(),
                &mut n,
                sk.as_ptr().cast(),
                sk.len() as c_int,
                access.as_ptr(),
                pol.as_ptr(),
            )
        };
        if rc != 0 {
            return Err(e("h_generate_user_private_key"));
        }
        uk.truncate(n as usize);
        let mut w = World { pol, attrs, uid: vec![v as u8 + 1; 3], pk, uk, key: vec![], header: vec![] };
        let (mut k, mut h) = (vec![0u8; 64], vec![0u8; 4096]);
        let (mut kl, mut hl) = (64, 4096);
        let rc = unsafe {
            h_aes_encrypt_header(
                k.as_mut_ptr().cast(),
                &mut kl,
                h.as_mut_ptr().cast(),
                &mut hl,
                w.pol.as_ptr(),
                w.pk.as_ptr().cast(),
                w.pk.len() as c_int,
                w.attrs.as_ptr(),
                w.uid.as_ptr().cast(),
                w.uid.len() as c_int,
                std::ptr::null(),
                0,
            )
        };
        if rc != 0 {
            return Err(e("h_aes_encrypt_header"));
        }
        k.truncate(kl as usize);
        h.truncate(hl as usize);
        if decrypt(&w.uk, &h) != Some((k.clone(), w.uid.clone())) {
            return Err("the header of the setup does not open".into());
        }
        w.key = k;
        w.header = h;
        Ok(w)
    }
}

// ------------------------------------------------------------------ operations

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum O {
    /// create the next cache of this thread
    C,
    /// use / destroy the cache created before the threads start
    U0,
    X0,
    /// use / destroy what the next thread created first, or the handle it is expected to get
    Un,
    Xn,
    /// use / destroy what this thread created last, or the handle it is expected to get
    Uo,
    Xo,
    /// explicit error, failing creation, failing use, read of the last error
    E,
    F,
    B,
    R,
}
use O::*;

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Created(Option<i32>),
    /// which objects the result came from; None: refused
    Used(Option<usize>),
    Destroyed,
    Failed,
    Set,
    Read(String),
    Garbled(String),
}
#[derive(Clone, Debug)]
struct Ev {
    t: usize,
    op: O,
    enc: bool,
    /// objects (creations), handle (others)
    v: usize,
    h: i32,
    inv: usize,
    res: usize,
    out: Out,
    raw: (Vec<u8>, Vec<u8>),
    err: bool,
}

fn create(w: &World, enc: bool) -> (c_int, i32) {
    let mut h: c_int = -77;
    let rc = unsafe {
        if enc {
            h_aes_create_encryption_cache(&mut h, w.pol.as_ptr(), w.pk.as_ptr().cast(), w.pk.len() as c_int)
        } else {
            h_aes_create_decryption_cache(&mut h, w.uk.as_ptr().cast(), w.uk.len() as c_int)
        }
    };
    (rc, h)
}
fn destroy(enc: bool, h: i32) {
    unsafe {
        if enc {
            h_aes_destroy_encryption_cache(h);
        } else {
            h_aes_destroy_decryption_cache(h);
        }
    }
}
/// use a cache with the objects of `w`: (key, header or identifier)
fn use_cache(w: &World, enc: bool, h: i32) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut k, mut kl) = ([0u8; 64], 64);
    let mut out = [0u8; 1024];
    let mut ol: c_int = 1024;
    let (mut a, mut al) = ([0u8; 64], 64);
    let rc = unsafe {
        if enc {
            h_aes_encrypt_header_using_cache(
                k.as_mut_ptr().cast(),
                &mut kl,
                out.as_mut_ptr().cast(),
                &mut ol,
                h,
                w.attrs.as_ptr(),
                w.uid.as_ptr().cast(),
                w.uid.len() as c_int,
                std::ptr::null::<c_char>(),
                0,
            )
        } else {
            h_aes_decrypt_header_using_cache(
                k.as_mut_ptr().cast(),
                &mut kl,
                out.as_mut_ptr().cast(),
                &mut ol,
                a.as_mut_ptr().cast(),
                &mut al,
                w.header.as_ptr().cast(),
                w.header.len() as c_int,
                h,
            )
        }
    };
    (rc == 0).then(|| (k[..kl.clamp(0, 64) as usize].to_vec(), out[..ol.clamp(0, 1024) as usize].to_vec()))
}

struct Shared {
    /// handles created so far: (thread, enc) -> [(handle, objects)]
    made: BTreeMap<(usize, bool), Vec<(i32, usize)>>,
    base: [i32; 2],
    evs: Vec<Ev>,
    /// last error read at the end of each thread
    last: Vec<String>,
    bad_start: Vec<String>,
}
type Prog = Vec<(bool, O)>; // (encryption cache?, op)

fn run_thread(t: usize, n: usize, p: &Prog, ws: &[World], sh: &Mutex<Shared>) {
    // nothing is left from earlier executions
    err_text();
    let mut count = [0usize; 2];
    for (i, (enc, op)) in p.iter().enumerate() {
        rt::begin();
        let (enc, op) = (*enc, *op);
        let e = enc as usize;
        let inv = rt::now();
        let who = match op {
            Un | Xn => (t + 1) % n,
            _ => t,
        };
        let (h, v) = {
            let s = sh.lock().unwrap();
            let made = s.made.get(&(who, enc));
            match op {
                U0 | X0 => (s.base[e], 0),
                C => (0, 1 + t * SLOTS_PER + count[e]),
                Un | Xn => made.map_or((s.base[e] + 1, 1 + who * SLOTS_PER), |m| m[0]),
                Uo | Xo => made.map_or((s.base[e] + 1 + t as i32, 1 + t * SLOTS_PER), |m| *m.last().unwrap()),
                _ => (i32::MAX - 5, 0),
            }
        };
        let w = &ws[v];
        let mut raw = (vec![], vec![]);
        let mut err = false;
        let out = match op {
            C => {
                let (rc, h) = create(w, enc);
                if rc == 0 {
                    count[e] += 1;
                    sh.lock().unwrap().made.entry((t, enc)).or_default().push((h, v));
                    Out::Created(Some(h))
                } else {
                    err = true;
                    Out::Created(None)
                }
            }
            U0 | Un | Uo | B => match use_cache(w, enc, h) {
                None => {
                    err = true;
                    Out::Used(None)
                }
                Some(r) => {
                    raw = r;
                    Out::Used(Some(v)) // settled after the execution
                }
            },
            X0 | Xn | Xo => {
                destroy(enc, h);
                Out::Destroyed
            }
            E => {
                let rc = unsafe { set_error(cs(format!("mark-{t}-{i}")).as_ptr()) };
                if rc == 0 {
                    Out::Set
                } else {
                    Out::Garbled(format!("set_error returns {rc}"))
                }
            }
            F => {
                let mut h: c_int = 0;
                let rc = unsafe {
                    if enc {
                        h_aes_create_encryption_cache(&mut h, c"{".as_ptr(), w.pk.as_ptr().cast(), w.pk.len() as c_int)
                    } else {
                        h_aes_create_decryption_cache(&mut h, w.uk.as_ptr().cast(), 7)
                    }
                };
                err = true;
                if rc == 0 {
                    Out::Garbled("creation from malformed objects succeeds".into())
                } else {
                    Out::Failed
                }
            }
            R => Out::Read(err_text()),
        };
        let res = rt::now();
        let ev = Ev { t, op, enc, v, h, inv, res, out, raw, err };
        sh.lock().unwrap().evs.push(ev);
    }
    let last = err_text();
    sh.lock().unwrap().last[t] = last;
}

// ------------------------------------------------------------------ oracle

/// some order of the calls, consistent with their real-time order, explains all outcomes
fn linearise(evs: &[Ev], done: &mut Vec<bool>, live: &mut BTreeMap<(bool, i32), usize>, left: usize) -> bool {
    if left == 0 {
        return true;
    }
    let first_res = evs.iter().zip(done.iter()).filter(|(_, d)| !**d).map(|(e, _)| e.res).min().unwrap();
    for i in 0..evs.len() {
        if done[i] || evs[i].inv > first_res {
            continue;
        }
        let e = &evs[i];
        let mut undo: Option<((bool, i32), Option<usize>)> = None;
        let ok = match &e.out {
            Out::Created(Some(h)) => {
                if live.contains_key(&(e.enc, *h)) {
                    false
                } else {
                    live.insert((e.enc, *h), e.v);
                    undo = Some(((e.enc, *h), None));
                    true
                }
            }
            Out::Used(Some(v)) => live.get(&(e.enc, e.h)) == Some(v),
            // a decryption cache of other objects refuses the header
            Out::Used(None) => live.get(&(e.enc, e.h)).is_none_or(|w| *w != e.v),
            Out::Destroyed => {
                let old = live.remove(&(e.enc, e.h));
                undo = Some(((e.enc, e.h), old));
                true
            }
            _ => true,
        };
        if ok {
            done[i] = true;
            if linearise(evs, done, live, left - 1) {
                return true;
            }
            done[i] = false;
        }
        if let Some((k, old)) = undo {
            match old {
                Some(v) => live.insert(k, v),
                None => live.remove(&k),
            };
        }
    }
    false
}
fn show(evs: &[Ev]) -> String {
    let mut v: Vec<_> = evs.iter().collect();
    v.sort_by_key(|e| e.inv);
    v.iter()
        .map(|e| {
            format!(
                "[{}..{}] T{} {}{:?}{} -> {:?}",
                e.inv,
                e.res,
                e.t,
                if e.enc { "enc " } else { "dec " },
                e.op,
                if matches!(e.op, C | E | F | R) { String::new() } else { format!("({})", e.h) },
                e.out
            )
        })
        .collect::<Vec<_>>()
        .join("; ")
}
/// decide which objects each use came from
fn settle(ev: &mut Ev, ws: &[World]) {
    if let Out::Used(Some(v)) = ev.out {
        if ev.enc {
            let order: Vec<usize> = std::iter::once(v).chain((0..ws.len()).filter(|x| *x != v)).collect();
            // the attributes belong to `v`: a cache of other objects cannot succeed with them
            let hit = order.iter().find(|x| decrypt(&ws[**x].uk, &ev.raw.1) == Some((ev.raw.0.clone(), ws[v].uid.clone())));
            ev.out = match hit {
                Some(x) => Out::Used(Some(*x)),
                None => Out::Garbled("the encrypted header does not open to the returned key".into()),
            };
        } else if (&ev.raw.0, &ev.raw.1) != (&ws[v].key, &ws[v].uid) {
            ev.out = Out::Garbled(format!("the header decrypts to {:02x?}", ev.raw));
        }
    }
}
fn judge(n: usize, prog: &[Prog], ws: &[World], sh: &Mutex<Shared>) -> Result<String, String> {
    let mut s = sh.lock().unwrap();
    let mut evs = std::mem::take(&mut s.evs);
    for e in evs.iter_mut() {
        settle(e, ws);
        if let Out::Garbled(m) = &e.out {
            let m = m.clone();
            return Err(format!("{m}; {}", show(&[e.clone()])));
        }
        if e.out == Out::Created(None) {
            return Err(format!("a creation from good objects fails; {}", show(&evs)));
        }
    }
    // errors, thread by thread
    for t in 0..n {
        let mut want: Option<String> = None; // pending: "" = any message
        let mut mine: Vec<&Ev> = evs.iter().filter(|e| e.t == t).collect();
        mine.sort_by_key(|e| e.inv);
        let end = s.last[t].clone();
        let reads = |want: &Option<String>, got: &str, at: &str| -> Result<(), String> {
            let foreign = (0..n).any(|o| o != t && got.contains(&format!("mark-{o}-")));
            let ok = match want {
                None => got.is_empty(),
                Some(w) if w.is_empty() => !got.is_empty() && !got.contains("mark-"),
                Some(w) => got.contains(w.as_str()),
            };
            if ok && !foreign {
                Ok(())
            } else {
                Err(format!(
                    "T{t} reads the error {got:?} {at}, expected {}; {}",
                    match want {
                        None => "none".into(),
                        Some(w) if w.is_empty() => "its own failure".into(),
                        Some(w) => format!("{w:?}"),
                    },
                    show(&evs)
                ))
            }
        };
        for (i, e) in mine.iter().enumerate() {
            match &e.out {
                Out::Set => want = Some(format!("mark-{t}-{i}")),
                Out::Read(g) => {
                    reads(&want, g, "in the middle")?;
                    want = None;
                }
                _ if e.err => want = Some(String::new()),
                _ => {}
            }
        }
        // destroying an unknown handle may or may not report an error
        let vague = mine.iter().any(|e| e.out == Out::Destroyed);
        if !(vague && want.is_none()) {
            reads(&want, &end, "at the end")?;
        }
    }
    if !s.bad_start.is_empty() {
        return Err(s.bad_start.join("; "));
    }
    // what is usable afterwards
    let mut handles: BTreeSet<(bool, i32, usize)> = BTreeSet::new();
    let kinds: BTreeSet<bool> = prog.iter().flatten().map(|(e, _)| *e).collect();
    for e in &kinds {
        handles.insert((*e, s.base[*e as usize], 0));
        handles.insert((*e, i32::MAX - 5, 0));
    }
    for ((_, e), l) in &s.made {
        handles.extend(l.iter().map(|(h, v)| (*e, *h, *v)));
    }
    drop(s);
    let mut all = evs.clone();
    for (enc, h, v) in &handles {
        let inv = rt::now();
        let r = use_cache(&ws[*v], *enc, *h);
        let mut e = Ev {
            t: n,
            op: Uo,
            enc: *enc,
            v: *v,
            h: *h,
            inv,
            res: rt::now(),
            out: Out::Used(r.as_ref().map(|_| *v)),
            raw: r.unwrap_or_default(),
            err: false,
        };
        settle(&mut e, ws);
        all.push(e);
    }
    err_text();
    let base = sh.lock().unwrap().base;
    let mut live: BTreeMap<(bool, i32), usize> = kinds.iter().map(|e| ((*e, base[*e as usize]), 0)).collect();
    let ok = linearise(&all, &mut vec![false; all.len()], &mut live, all.len());
    for (enc, h, _) in &handles {
        destroy(*enc, *h);
    }
    for (enc, h, v) in &handles {
        if use_cache(&ws[*v], *enc, *h).is_some() {
            return Err(format!("handle {h} is usable after it was destroyed; {}", show(&evs)));
        }
    }
    err_text();
    if !ok {
        return Err(format!("no sequential order explains: {}", show(&all)));
    }
    evs.sort_by_key(|e| e.inv);
    Ok(evs.iter().map(|e| format!("{}{:?}", e.t, std::mem::discriminant(&e.out))).collect())
}

// ------------------------------------------------------------------ programs

fn label(p: &[Prog], bound: usize) -> String {
    let ops: Vec<String> = p
        .iter()
        .map(|t| t.iter().map(|(e, o)| format!("{}{o:?}", if *e { "e" } else { "d" })).collect::<Vec<_>>().join("."))
        .collect();
    format!("{}/b{}", ops.join("|"), if bound > 90 { "all".into() } else { bound.to_string() })
}
fn check(ctx: &Ctx, ws: &Arc<Vec<World>>, p: &[Prog], bound: usize, limit: u64) {
    let l = label(p, bound);
    ctx.case(l.clone(), || {
        let n = p.len();
        let sh = Arc::new(Mutex::new(Shared {
            made: BTreeMap::new(),
            base: [0; 2],
            evs: vec![],
            last: vec![],
            bad_start: vec![],
        }));
        let kinds: BTreeSet<bool> = p.iter().flatten().map(|(e, _)| *e).collect();
        let setup = {
            let (sh, ws) = (sh.clone(), ws.clone());
            move || {
                let mut s = sh.lock().unwrap();
                s.made.clear();
                s.evs.clear();
                s.last = vec![String::new(); n];
                for e in &kinds {
                    let (rc, h) = create(&ws[0], *e);
                    if rc != 0 {
                        return Err(format!("a creation before the threads start fails: {}", err_text()));
                    }
                    s.base[*e as usize] = h;
                }
                Ok(())
            }
        };
        let outcomes = std::cell::RefCell::new(BTreeSet::new());
        let mut k = 0u64;
        let judge = || {
            k += 1;
            if k % 64 == 0 {
                ctx.beat();
            }
            judge(n, p, ws, &sh).map(|o| {
                outcomes.borrow_mut().insert(o);
            })
        };
        let body = {
            let (sh, ws, p) = (sh.clone(), ws.clone(), p.to_vec());
            Arc::new(move |t: usize| run_thread(t, n, &p[t], &ws, &sh))
        };
        let e = rt::explore(&l, n, bound, limit, body, setup, judge);
        ctx.trace(e.schedules);
        ctx.op(e.points);
        ctx.state(outcomes.borrow().len() as u64);
        ctx.outcome("schedules", e.schedules);
        ctx.outcome("programs", 1);
        ctx.outcome("diverged replays", e.diverged);
        if e.failure.is_none() && !e.complete {
            ctx.outcome("programs cut at the schedule limit", 1);
        }
        if e.schedules > 100 {
            ctx.sample(|| format!("{l}: {} schedules", e.schedules));
        }
        match e.failure {
            None => Ok(()),
            Some(m) => Err(m),
        }
    });
}
fn words(menu: &[O], n: usize) -> Vec<Vec<O>> {
    (0..n).fold(vec![vec![]], |a, _| {
        a.iter().flat_map(|w| menu.iter().map(move |o| [w.clone(), vec![*o]].concat())).collect()
    })
}
/// multisets of `n` threads
fn teams(ws: &[Vec<O>], n: usize) -> Vec<Vec<Vec<O>>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        v = v
            .iter()
            .flat_map(|t| (t.last().copied().unwrap_or(0)..ws.len()).map(move |i| [t.clone(), vec![i]].concat()))
            .collect();
    }
    v.iter().map(|t| t.iter().map(|i| ws[*i].clone()).collect()).collect()
}
fn of(enc: bool, t: &[Vec<O>]) -> Vec<Prog> {
    t.iter().map(|w| w.iter().map(|o| (enc, *o)).collect()).collect()
}

fn p19(ctx: &Ctx) {
    // one processor per worker: switching threads is then cheap
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let sz = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, sz, &mut set) == 0 {
            let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
            let mut one: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpus[ctx.shard.0 % cpus.len()], &mut one);
            libc::sched_setaffinity(0, sz, &one);
        }
    }
    let mut ws = None;
    ctx.case("setup", || {
        ws = Some(Arc::new((0..1 + 3 * SLOTS_PER).map(World::new).collect::<Result<Vec<_>, String>>()?));
        Ok(())
    });
    // the other workers, and replays, do not run that case
    let ws = match ws {
        Some(w) => w,
        None => match (0..1 + 3 * SLOTS_PER).map(World::new).collect::<Result<Vec<_>, String>>() {
            Ok(w) => Arc::new(w),
            Err(e) => {
                eprintln!("setup: {e}");
                return;
            }
        },
    };
    // statics come into being outside the exploration
    for enc in [true, false] {
        let (_, h) = create(&ws[0], enc);
        use_cache(&ws[0], enc, h);
        destroy(enc, h);
    }
    err_text();
    let mut todo: Vec<(Vec<Prog>, usize)> = vec![];
    let all = 99;
    let caches = [C, U0, X0, Un, Uo, Xo];
    let small = [C, U0, X0, Un];
    let errors = [E, F, B, R];
    let mut add = |ts: Vec<Vec<Vec<O>>>, bound: usize| {
        for t in ts {
            for enc in [true, false] {
                todo.push((of(enc, &t), bound));
            }
        }
    };
    if REAL {
        add(teams(&words(&small, 1), 2), all);
        add(teams(&words(&errors, 1), 2), all);
        add(teams(&words(&[C, U0], 2), 2), 1);
    } else if ctx.quick() {
        add(teams(&words(&caches, 2), 2), 2);
        add(teams(&words(&[C, U0, X0, Un, Xn], 1), 2), all);
        add(teams(&words(&[C, U0, X0, Un, Xn], 1), 3), 2);
        add(teams(&words(&errors, 2), 2), all);
        add(teams(&words(&[E, F, R], 3), 2), 1);
        add(teams(&words(&[C, F, U0, B], 2), 2), 1);
        add(teams(&words(&[E, B, R], 1), 3), all);
    } else {
        add(teams(&words(&[C, U0, X0, Un, Uo, Xn, Xo], 2), 2), all);
        add(teams(&words(&[C, U0, X0, Un, Xn], 1), 3), all);
        add(teams(&words(&[C, U0, X0, Un], 3), 2), 2);
        add(teams(&words(&small, 2), 3), 1);
        add(teams(&words(&errors, 3), 2), all);
        add(teams(&words(&[C, F, U0, B, R], 2), 2), 3);
        add(teams(&words(&[E, B, R], 2), 3), 2);
    }
    // both kinds of cache in one program
    let mixed: Vec<Prog> = {
        let menu: Vec<(bool, O)> = [true, false].iter().flat_map(|e| [C, U0, X0].map(|o| (*e, o))).collect();
        menu.iter().flat_map(|a| menu.iter().map(move |b| vec![*a, *b])).collect()
    };
    for (i, a) in mixed.iter().enumerate().filter(|_| !REAL) {
        for b in &mixed[i..] {
            let both = a.iter().chain(b).any(|x| x.0) && a.iter().chain(b).any(|x| !x.0);
            if both {
                todo.push((vec![a.clone(), b.clone()], if ctx.quick() { 1 } else { all }));
            }
        }
    }
    ctx.note(if REAL { "over BLS12-381 (the substitute group did not compile against this tree), reduced programs" } else { "over a substitute for the pairing group (exponents modulo 2^61-1)" });
    let limit = ctx.pick(20_000, 400_000);
    let start = std::time::Instant::now();
    ctx.par(&todo, |(p, b)| {
        // only reached when the substitute group cannot be used
        if REAL && start.elapsed().as_secs() > 300 {
            ctx.outcome("programs skipped for time", 1);
        } else {
            check(ctx, &ws, p, *b, limit)
        }
    });
}

const P19: Prop = Prop {
    id: "P19",
    run: p19,
    procs: 8,
    bounds: "every schedule of: all 2-thread programs of 2 calls over 6 (7) cache calls with <= 2 preemptions (all); 2 (3) threads x 1 call, all schedules; 2 threads x 3 error calls (cache calls in thorough, <= 2 preemptions); 3 threads x 2 calls (thorough, 1 preemption); both kinds of cache and mixtures",
    assumptions: &[
        "sequentially consistent memory; scheduling points at locks, atomics, condition variables, yields and call boundaries",
        "lock readers queue behind a waiting writer, as the standard library's lock does on Linux",
        "the code above the pairing group does not depend on which group it is",
    ],
};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("worker") => {
            let tier = if a[3] == "quick" { Tier::Quick } else { Tier::Thorough };
            worker(&P19, tier, a[4].parse().unwrap(), a.get(7).cloned(), &a[5], &a[6])
        }
        Some("run") => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
            supervise(&P19, tier, seed, only.as_deref())
        }
        _ => 2,
    };
    std::process::exit(code);
}
