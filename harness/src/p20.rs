//! P20: the last error
use crate::{abe::*, ffi::*, sup::*};
use std::sync::mpsc::{channel, Receiver, Sender};

/// read with a capacity; checks the buffer and the terminator, returns the text
fn read(cap: i32) -> Result<Vec<u8>, String> {
    let r = call(GetErr, &[Val::Out(true, Some(cap))])?;
    if r.code != 0 {
        return Err(format!("get_last_error with capacity {cap} returns {}", r.code));
    }
    Ok(r.outs[0].data.clone())
}
/// read with a capacity and look at the raw buffer
fn raw(cap: usize, room: usize) -> Result<(i32, Vec<u8>), String> {
    use cosmian_abe_gpsw::interfaces::ffi::error::get_last_error;
    let mut b: Vec<u8> = vec![0x77; room];
    let mut l = cap as i32;
    let c = unsafe { get_last_error(b.as_mut_ptr().cast(), &mut l) };
    if c != 0 {
        return Err(format!("get_last_error with capacity {cap} returns {c}"));
    }
    if b[cap..].iter().any(|x| *x != 0x77) {
        return Err(format!("bytes beyond the capacity {cap} are written"));
    }
    Ok((l, b))
}
/// the text `set_error(msg)` is reported as: the message, possibly after a constant prefix
fn prefix() -> Result<Vec<u8>, String> {
    last_error()?;
    if call(SetErr, &[Val::st("marker")])?.code != 0 {
        return Err("set_error fails".into());
    }
    let t = last_error()?;
    let p = t.strip_suffix(b"marker").ok_or(format!("the error set is reported as {:?}", String::from_utf8_lossy(&t)))?;
    if p.len() > 40 {
        return Err("long prefix".into());
    }
    Ok(p.to_vec())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Set(usize),
    Fail(usize),
    Good,
    Read(i32),
    BadRead(usize),
}
const TEXTS: [&str; 3] = ["a", "second message", "é日本"];
/// what a thread reports: pending text (None: not known but not empty)
fn step(w: &World, pre: &[u8], op: Op, pending: &mut Vec<Option<Vec<u8>>>) -> Result<(), String> {
    // `pending` holds the acceptable texts of the last error; empty text = no error
    match op {
        Op::Set(i) => {
            if call(SetErr, &[Val::st(TEXTS[i])])?.code != 0 {
                return Err("set_error fails".into());
            }
            *pending = vec![Some(cat(&[pre, TEXTS[i].as_bytes()]))];
        }
        Op::Fail(i) => {
            let r = match i {
                0 => call(Size, &[Val::In(None, 8)])?,
                1 => call(BlockDec, &w.good(BlockDec, 0, 0).into_iter().map(|v| if let Val::Int(_) = v { Val::Int(99) } else { v }).collect::<Vec<_>>())?,
                _ => call(SetErr, &[Val::Str(None)])?,
            };
            if r.code == 0 {
                return Err("a call that should fail succeeds".into());
            }
            *pending = vec![None];
        }
        Op::Good => {
            let r = call(BlockEnc, &w.good(BlockEnc, 0, 0))?;
            if r.code != 0 {
                return Err("a correct call fails".into());
            }
        }
        Op::Read(c) => {
            let t = read(c)?;
            let n = (c - 1) as usize;
            let ok = pending.iter().any(|p| match p {
                None => t.len() <= n && (!t.is_empty() || n == 0) && !t.ends_with(TEXTS[0].as_bytes()) | (n < 12),
                Some(p) => t == p[..p.len().min(n)],
            });
            if !ok {
                return Err(format!("a read of capacity {c} gives {:?} where {pending:?} is expected", String::from_utf8_lossy(&t)));
            }
            *pending = vec![Some(vec![])];
        }
        Op::BadRead(i) => {
            let a = [Val::Out(false, Some(10)), Val::Out(true, None), Val::Out(true, Some(0)), Val::Out(true, Some(-5)), Val::Out(true, Some(i32::MIN))][i].clone();
            let r = call(GetErr, &[a])?;
            if r.code == 0 {
                return Err("get_last_error without a buffer succeeds".into());
            }
            // a failing read may leave its own error, but loses none silently
            pending.push(None);
        }
    }
    Ok(())
}

/// a thread that executes closures
struct Th(Sender<Box<dyn FnOnce() + Send>>);
impl Th {
    fn new() -> Th {
        let (t, r): (Sender<Box<dyn FnOnce() + Send>>, Receiver<_>) = channel();
        std::thread::spawn(move || {
            for f in r {
                f()
            }
        });
        Th(t)
    }
    fn run<T: Send + 'static>(&self, f: impl FnOnce() -> T + Send + 'static) -> T {
        let (t, r) = channel();
        self.0.send(Box::new(move || drop(t.send(f())))).unwrap();
        r.recv().expect("a helper thread died")
    }
}

pub fn p20(ctx: &Ctx) {
    // the library prints a line for every wrong read
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 2);
    }
    let w: &'static World = match World::standard() {
        Ok(w) => Box::leak(Box::new(w)),
        Err(m) => return ctx.case("setup", || Err(m)),
    };
    let mut pre = vec![];
    ctx.case("prefix", || {
        pre = prefix()?;
        Ok(())
    });
    let pre: &'static [u8] = Box::leak(pre.into_boxed_slice());
    // message lengths x capacities
    let lens: Vec<usize> = (0..ctx.pick(70, 200)).chain([255, 256, 257, 1000, 4095, 4096, 4097, 70000]).collect();
    ctx.par(&lens, |n| {
        ctx.case(format!("length {n}"), || {
            let msg: Vec<u8> = (0..*n).map(|i| b'A' + (i % 57) as u8).collect();
            let full = cat(&[pre, &msg]);
            let k = full.len();
            let mut caps: Vec<usize> = (1..ctx.pick(90, 260)).collect();
            caps.extend([k.max(2) - 1, k, k + 1, k + 2, k + 100, 4096, 100_000]);
            caps.retain(|c| *c > 0);
            for c in caps {
                last_error()?;
                if call(SetErr, &[Val::st(&msg)])?.code != 0 {
                    return Err("set_error fails".into());
                }
                let (l, b) = raw(c, c + 64)?;
                let want = &full[..k.min(c - 1)];
                if l as usize != want.len() || b[..want.len()] != *want {
                    return Err(format!("capacity {c}: {l} bytes {:?} instead of {} bytes", String::from_utf8_lossy(&b[..(l.max(0) as usize).min(30)]), want.len()));
                }
                if b[want.len()] != 0 {
                    return Err(format!("capacity {c}: no zero byte after the message"));
                }
                let (l, b) = raw(c, c + 64)?;
                if l != 0 || b[0] != 0 {
                    return Err(format!("capacity {c}: a second read reports {l} bytes"));
                }
                // also against a guard page
                call(SetErr, &[Val::st(&msg)])?;
                if read(c as i32)? != want {
                    return Err(format!("capacity {c}: the guarded read differs"));
                }
                ctx.state(1);
                ctx.op(5);
            }
            ctx.trace(1);
            Ok(())
        })
    });
    // every one- and two-byte message, and characters cut in the middle
    let firsts: Vec<u8> = (1..=255).collect();
    ctx.par(&firsts, |a| {
        ctx.case(format!("bytes {a}"), || {
            let mut list = vec![vec![*a]];
            list.extend((1..=255).map(|b| vec![*a, b]));
            list.extend((1..=255).map(|b| vec![*a, b, 0x80, b'z']));
            for m in list {
                last_error()?;
                let r = call(SetErr, &[Val::st(&m)])?;
                let t = last_error()?;
                ctx.op(2);
                ctx.state(1);
                if std::str::from_utf8(&m).is_ok() {
                    if r.code != 0 || t != cat(&[pre, &m]) {
                        return Err(format!("the message {} is reported as {:?}", hx(&m), String::from_utf8_lossy(&t)));
                    }
                } else if r.code != 0 && t.is_empty() {
                    return Err(format!("the message {} is refused without an error", hx(&m)));
                }
            }
            for c in 1..12 {
                let m = ["é", "日", "𝄞x", "aé"][*a as usize % 4];
                call(SetErr, &[Val::st(m)])?;
                let c = c + pre.len() as i32;
                let f = cat(&[pre, m.as_bytes()]);
                if read(c)? != f[..f.len().min(c as usize - 1)] {
                    return Err(format!("{m:?} at capacity {c}"));
                }
            }
            Ok(())
        })
    });
    // histories on two threads, and on a third one that never fails
    let ops: Vec<Op> = if ctx.quick() {
        vec![Op::Set(0), Op::Set(1), Op::Fail(0), Op::Good, Op::Read(200), Op::Read(1), Op::BadRead(2)]
    } else {
        vec![Op::Set(0), Op::Set(2), Op::Fail(0), Op::Fail(1), Op::Fail(2), Op::Good, Op::Read(200), Op::Read(1), Op::Read(9), Op::BadRead(0), Op::BadRead(2)]
    };
    // every operation of the whole menu, on one thread
    let all: Vec<Op> = (0..3).map(Op::Set).chain((0..3).map(Op::Fail)).chain([Op::Good]).chain([300, 200, 1, 2, 9].map(Op::Read)).chain((0..5).map(Op::BadRead)).collect();
    let firsts: Vec<(Op, Op)> = all.iter().flat_map(|a| all.iter().map(move |b| (*a, *b))).collect();
    ctx.par(&firsts, |(a, b)| {
        ctx.case(format!("menu {a:?} {b:?}"), || {
            let all = all.clone();
            let (a, b, deep) = (*a, *b, !ctx.quick());
            let n = std::thread::spawn(move || -> Result<u64, String> {
                let mut n = 0;
                let fourth: Vec<Option<Op>> = if deep { all.iter().map(|o| Some(*o)).chain([None]).collect() } else { vec![None] };
                for c in &all {
                    for d in &fourth {
                        let mut pend = vec![Some(vec![])];
                        read(10)?; // whatever the previous history left
                        for o in [a, b, *c].into_iter().chain(*d).chain([Op::Read(300), Op::Read(2)]) {
                            step(w, pre, o, &mut pend).map_err(|m| format!("{c:?} {d:?}: {o:?}: {m}"))?;
                        }
                        n += 1;
                    }
                }
                Ok(n)
            })
            .join()
            .map_err(|_| "a thread panics")??;
            ctx.state(n);
            ctx.trace(n);
            ctx.op(5 * n);
            ctx.outcome("histories of the whole menu", n);
            Ok(())
        })
    });
    // first operation fixed per job
    let depth = ctx.pick(5, 5);
    let mut jobs = vec![];
    for a in &ops {
        for b in &ops {
            for t in 0..2 {
                jobs.push((*a, *b, t));
            }
        }
    }
    ctx.par(&jobs, |(a, b, tb)| {
        ctx.case(format!("threads {a:?}@0 {b:?}@{tb}"), || {
            let th = [Th::new(), Th::new()];
            let ops = ops.clone();
            let mut seqs: Vec<Vec<(usize, Op)>> = vec![vec![(0, *a), (*tb, *b)]];
            let mut count = 0;
            while let Some(h) = seqs.pop() {
                // reading at the end of every history looks at each prefix
                let mut pend: [Vec<Option<Vec<u8>>>; 2] = [vec![Some(vec![])], vec![Some(vec![])]];
                let mut blocks: Vec<(usize, Vec<Op>)> = vec![];
                for (t, o) in h.iter().copied().chain([(0, Op::Read(300)), (1, Op::Read(300)), (0, Op::Read(2)), (1, Op::Read(2))]) {
                    match blocks.last_mut() {
                        Some((u, v)) if *u == t => v.push(o),
                        _ => blocks.push((t, vec![o])),
                    }
                }
                for (t, v) in blocks {
                    let mut p = pend[t].clone();
                    let r = th[t].run(move || {
                        for o in v {
                            step(w, pre, o, &mut p)?;
                        }
                        Ok::<_, String>(p)
                    });
                    pend[t] = r.map_err(|m| format!("history {h:?}: thread {t}: {m}"))?;
                }
                count += 1;
                ctx.op(h.len() as u64 + 4);
                if h.len() < depth {
                    for t in 0..2 {
                        for o in &ops {
                            // a read of nothing in particular changes nothing: skip two equal reads on one thread in a row
                            if h.last() == Some(&(t, *o)) && matches!(o, Op::Read(_) | Op::Good | Op::BadRead(_)) {
                                continue;
                            }
                            let mut x = h.clone();
                            x.push((t, *o));
                            seqs.push(x);
                        }
                    }
                }
                if count % 1000 == 0 {
                    ctx.beat();
                    if ctx.stopped() {
                        break;
                    }
                }
            }
            // a new thread starts without an error
            if !std::thread::spawn(|| read(100)).join().unwrap()?.is_empty() {
                return Err("a new thread reports an error".into());
            }
            ctx.state(count);
            ctx.trace(count);
            ctx.outcome("histories on two threads", count);
            Ok(())
        })
    });
    // every function: a failure replaces the error, a success leaves it
    for f in crate::p16::FUNS {
        ctx.case(format!("function {f:?}"), || {
            let make = |f: Fun| Ok::<_, String>(call(f, &w.good(f, 0, 0))?.handle);
            let (enc, dec) = (make(EncNew)?, make(DecNew)?);
            let good = w.good(f, enc, dec);
            let mut bads: Vec<Vec<Val>> = vec![];
            for (i, v) in good.iter().enumerate() {
                let b = match v {
                    Val::In(..) => vec![Val::In(None, 3), Val::of(&[9])],
                    Val::Str(_) => vec![Val::Str(None), Val::st("{"), Val::st([0xff])],
                    Val::Out(..) => vec![Val::Out(true, None), Val::Out(true, Some(1)), Val::Out(true, Some(0))],
                    Val::Int(_) => vec![Val::Int(-77)],
                    Val::Handle(_) => vec![Val::Handle(false)],
                };
                for b in b {
                    let mut a = good.clone();
                    a[i] = b;
                    bads.push(a);
                }
            }
            for a in bads {
                for first in [true, false] {
                    last_error()?;
                    if first {
                        call(SetErr, &[Val::st("marker")])?;
                    }
                    let r = call(f, &a)?;
                    let t = last_error()?;
                    let failed = if f == Size { !(t.is_empty() || t.ends_with(b"marker")) } else { r.code != 0 };
                    if failed && (t.is_empty() || t.ends_with(b"marker")) {
                        return Err(format!("{a:?} fails and the last error is {:?}", String::from_utf8_lossy(&t)));
                    }
                    if !failed && first && t != cat(&[pre, b"marker"]) {
                        return Err(format!("{a:?} succeeds and the last error is {:?}", String::from_utf8_lossy(&t)));
                    }
                    if !failed && !first && !t.is_empty() {
                        return Err(format!("{a:?} succeeds and leaves the error {:?}", String::from_utf8_lossy(&t)));
                    }
                    ctx.op(2);
                    ctx.state(1);
                }
            }
            last_error()?;
            call(SetErr, &[Val::st("marker")])?;
            if f != EncDel && f != DecDel {
                let r = call(f, &good)?;
                if r.code != 0 && f != Size {
                    return Err("a correct call fails".into());
                }
            }
            if last_error()? != cat(&[pre, b"marker"]) {
                return Err("a correct call changes the last error".into());
            }
            ctx.outcome("functions", 1);
            Ok(())
        });
    }
    // zero bytes and long texts inside the messages of the library itself
    ctx.case("zero bytes", || {
        for (n, tail) in [("a\\u0000b", "b"), ("\\u0000", ""), ("x\\u0000\\u0000y\\u0000", "y"), ("\\u0000abc", "abc")] {
            for cap in [300, 20, 30, 40, 5, 1] {
                last_error()?;
                let mut a = w.good(UserKey, 0, 0);
                a[2] = Val::st(format!("{{\"{n}\":1}}"));
                let r = call(UserKey, &a)?;
                if r.code == 0 {
                    return Err("an unknown node is accepted".into());
                }
                let t = read(cap)?;
                if cap > 1 && t.is_empty() || t.contains(&0) {
                    return Err(format!("a message with zero bytes is reported as {t:?}"));
                }
                if cap == 300 && !String::from_utf8_lossy(&t).contains(tail) {
                    return Err(format!("a message with zero bytes is cut: {:?}", String::from_utf8_lossy(&t)));
                }
                ctx.op(2);
                ctx.state(1);
            }
        }
        for n in [10usize, 1000, 100_000] {
            last_error()?;
            let mut a = w.good(EncNew, 0, 0);
            a[1] = Val::st(format!("[\"{}\"]", "q".repeat(n)));
            call(EncNew, &a)?;
            let mut b = w.good(Rotate, 0, 0);
            b[1] = Val::st(format!("[\"L::{}\"]", "q".repeat(n)));
            for cap in [3, 100, 1000, 1001, 200_000] {
                if call(Rotate, &b)?.code == 0 {
                    return Err("rotation of an unknown attribute succeeds".into());
                }
                let t = read(cap)?;
                if t.len() > cap as usize - 1 || t.is_empty() {
                    return Err(format!("a long message is reported in {} bytes", t.len()));
                }
                if !last_error()?.is_empty() {
                    return Err("the error is not cleared".into());
                }
                ctx.op(3);
                ctx.state(1);
            }
        }
        Ok(())
    });
}
