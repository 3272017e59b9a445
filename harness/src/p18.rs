//! P18: C caches, sequential histories
use crate::{abe::*, ffi::*, pol::*, sup::*};
use std::collections::BTreeMap;

fn tiny(i: usize) -> Result<World, String> {
    // one attribute each, under different names and policies, so that a confusion of caches shows
    let (ax, at, max) = [("A", "x", 2), ("B", "y", 3), ("C", "z", 2)][i];
    let sp = Spec::new(&[(ax, &[at, "u"], false)], max);
    World::new(sp, &Ap::L((0, 0)), &Ap::L((0, 1)), &[(0, 0)], &[i as u8 + 1; 3], &[7, i as u8], b"data")
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    New(bool, usize), // encryption?, world
    BadNew(bool),
    Del(bool, usize), // k-th handle issued in this history
    DelNever(bool),
    BadUse(bool, usize),
}
struct Run<'a> {
    w: &'a [World],
    issued: Vec<(bool, usize, i32)>,
    live: BTreeMap<(bool, i32), usize>,
}
fn name(e: bool) -> [Fun; 3] {
    if e {
        [EncNew, EncUse, EncDel]
    } else {
        [DecNew, DecUse, DecDel]
    }
}
impl Run<'_> {
    fn new(&mut self, e: bool, k: usize) -> Result<(), String> {
        let f = name(e)[0];
        let r = call(f, &self.w[k].good(f, 0, 0))?;
        if r.code != 0 {
            return Err(format!("{f:?}: {}", String::from_utf8_lossy(&last_error()?)));
        }
        if self.live.insert((e, r.handle), k).is_some() {
            return Err(format!("{f:?} issues handle {} which is alive", r.handle));
        }
        self.issued.push((e, k, r.handle));
        Ok(())
    }
    fn del(&mut self, e: bool, h: i32) -> Result<(), String> {
        let f = name(e)[2];
        let r = call(f, &[Val::Int(h)])?;
        if r.code != 0 && self.live.contains_key(&(e, h)) {
            return Err(format!("{f:?} of a live cache fails"));
        }
        self.live.remove(&(e, h));
        last_error()?;
        Ok(())
    }
    /// use a handle and compare with the model
    fn used(&self, e: bool, h: i32) -> Result<(), String> {
        let f = name(e)[1];
        let k = self.live.get(&(e, h)).copied();
        let w = &self.w[k.unwrap_or(0)];
        let a = w.good(f, h, h);
        let r = call(f, &a)?;
        let m = last_error()?;
        match k {
            Some(_) if r.code != 0 => Err(format!("{f:?} on live handle {h} fails: {}", String::from_utf8_lossy(&m))),
            Some(k) => w.verify(f, &a, &r, false, &mut |_| ()).map_err(|m| format!("{f:?} on handle {h} made from objects {k}: {m}")),
            None if r.code == 0 => Err(format!("{f:?} on handle {h}, which is not alive, succeeds")),
            None if m.is_empty() => Err(format!("{f:?} on handle {h}, which is not alive, fails without a message")),
            None => Ok(()),
        }
    }
    fn check(&self, ctx: &Ctx) -> Result<(), String> {
        for (e, _, h) in &self.issued {
            self.used(*e, *h)?;
            ctx.op(1);
        }
        for e in [true, false] {
            self.used(e, i32::MAX - 1)?;
            self.used(e, -1)?;
        }
        Ok(())
    }
}
const NEVER: i32 = i32::MAX - 2;
fn run(ctx: &Ctx, w: &[World], h: &[Op]) -> Result<(), String> {
    let mut r = Run { w, issued: vec![], live: BTreeMap::new() };
    for op in h {
        ctx.op(1);
        match *op {
            Op::New(e, k) => r.new(e, k)?,
            Op::Del(e, i) => {
                let (_, _, x) = r.issued[i];
                r.del(e, x)?
            }
            Op::DelNever(e) => r.del(e, NEVER)?,
            Op::BadNew(e) => {
                let f = name(e)[0];
                let mut a = w[0].good(f, 0, 0);
                let n = a.len() - 1;
                if let Val::In(Some(b), l) = &mut a[n] {
                    let n = b.len();
                    b.truncate(n / 2);
                    *l = b.len() as i32;
                }
                if call(f, &a)?.code == 0 {
                    return Err(format!("{f:?} accepts half a key"));
                }
                last_error()?;
            }
            Op::BadUse(e, i) => {
                let f = name(e)[1];
                let mut a = w[0].good(f, r.issued[i].2, r.issued[i].2);
                if e {
                    a[3] = Val::st("[\"No::such\"]");
                } else {
                    a[3] = Val::of(&[0, 0, 0, 9, 1]);
                }
                if call(f, &a)?.code == 0 {
                    return Err(format!("{f:?} accepts wrong arguments"));
                }
                last_error()?;
            }
        }
    }
    r.check(ctx)?;
    // a use has no effect: the same again in the other direction, then destroy everything
    r.issued.reverse();
    r.check(ctx)?;
    let all: Vec<_> = r.live.keys().copied().collect();
    for (i, (e, h)) in all.iter().enumerate() {
        r.del(*e, *h)?;
        if let Some((e, h)) = all.get(i + 1) {
            r.used(*e, *h)?;
        }
    }
    r.check(ctx)
}
fn histories(depth: usize, full: bool) -> Vec<Vec<Op>> {
    let mut out = vec![];
    fn go(h: &mut Vec<Op>, issued: &mut Vec<bool>, depth: usize, full: bool, out: &mut Vec<Vec<Op>>) {
        if !h.is_empty() {
            out.push(h.clone());
        }
        if h.len() == depth {
            return;
        }
        let mut menu = vec![];
        for e in [true, false] {
            // worlds are interchangeable: use them in order of first appearance
            let seen = h.iter().filter_map(|o| if let Op::New(_, k) = o { Some(*k + 1) } else { None }).max().unwrap_or(0);
            for k in 0..(seen + 1).min(2) {
                menu.push(Op::New(e, k));
            }
            if full {
                menu.push(Op::BadNew(e));
                menu.push(Op::DelNever(e));
            }
        }
        for (i, e) in issued.iter().enumerate() {
            // destroying the same number of the other kind must not matter
            menu.push(Op::Del(*e, i));
            if full {
                menu.push(Op::Del(!*e, i));
                menu.push(Op::BadUse(*e, i));
            }
        }
        for o in menu {
            // two failing operations in a row add nothing
            let idle = |o: &Op| matches!(o, Op::BadNew(_) | Op::DelNever(_) | Op::BadUse(..));
            if idle(&o) && h.last().is_some_and(idle) {
                continue;
            }
            h.push(o);
            if let Op::New(e, _) = o {
                issued.push(e);
                go(h, issued, depth, full, out);
                issued.pop();
            } else {
                go(h, issued, depth, full, out);
            }
            h.pop();
        }
    }
    go(&mut vec![], &mut vec![], depth, full, &mut out);
    out
}

pub fn p18(ctx: &Ctx) {
    let w: Result<Vec<World>, String> = (0..3).map(tiny).collect();
    let w = match w {
        Ok(w) => w,
        Err(m) => return ctx.case("setup", || Err(m)),
    };
    let mut all = histories(ctx.pick(4, 6), false);
    all.extend(histories(ctx.pick(3, 4), true));
    // one history at a time in a process: histories destroy any number they like
    ctx.par(&all, |h| {
        ctx.case(format!("history {h:?}"), || {
            ctx.state(1);
            ctx.trace(1);
            ctx.outcome("histories", 1);
            run(ctx, &w, h)
        })
    });
    // many caches alive at once, every one usable, every second one destroyed
    let n = ctx.pick(150, 1500);
    let shards: Vec<usize> = (0..8).collect();
    ctx.par(&shards, |k| {
        ctx.case(format!("many {k}"), || {
            let mut r = Run { w: &w, issued: vec![], live: BTreeMap::new() };
            for i in 0..n {
                r.new((i + k) % 2 == 0, i % 3)?;
            }
            ctx.beat();
            for (e, _, h) in r.issued.clone() {
                r.used(e, h)?;
            }
            for (i, (e, _, h)) in r.issued.clone().into_iter().enumerate() {
                if i % 2 == k % 2 {
                    r.del(e, h)?;
                }
            }
            ctx.beat();
            for (e, _, h) in r.issued.clone() {
                r.used(e, h)?;
            }
            for (e, h) in r.live.keys().copied().collect::<Vec<_>>() {
                r.del(e, h)?;
            }
            ctx.op(n as u64 * 4);
            ctx.state(n as u64);
            ctx.outcome("caches alive together", n as u64);
            Ok(())
        })
    });
    // very many caches alive at once: handles stay distinct whatever their number
    let n = ctx.pick(1100, 67000);
    ctx.par(&[true, false], |e| {
        ctx.case(format!("crowd of {} caches", if *e { "encryption" } else { "decryption" }), || {
            let mut r = Run { w: &w, issued: vec![], live: BTreeMap::new() };
            for i in 0..n {
                r.new(*e, i % 3)?;
                ctx.beat();
            }
            let marks: Vec<usize> = (0..n).filter(|i| *i < 12 || i + 12 >= n || *i % (n / 40) == 0 || i.is_power_of_two()).collect();
            for i in &marks {
                let (e, _, h) = r.issued[*i];
                r.used(e, h)?;
                ctx.beat();
            }
            for (e, h) in r.live.keys().copied().collect::<Vec<_>>() {
                r.del(e, h)?;
            }
            for i in marks {
                let (e, _, h) = r.issued[i];
                r.used(e, h)?;
            }
            ctx.op(2 * n as u64);
            ctx.state(n as u64);
            ctx.outcome("caches alive together", n as u64);
            Ok(())
        })
    });
    // one cache used many times
    ctx.par(&shards, |k| {
        ctx.case(format!("uses {k}"), || {
            let mut r = Run { w: &w, issued: vec![], live: BTreeMap::new() };
            let e = k % 2 == 0;
            r.new(e, k % 3)?;
            r.new(e, (k + 1) % 3)?;
            for _ in 0..ctx.pick(150, 2000) {
                r.used(e, r.issued[0].2)?;
                ctx.op(1);
            }
            r.used(e, r.issued[1].2)?;
            for (e, h) in r.live.keys().copied().collect::<Vec<_>>() {
                r.del(e, h)?;
            }
            Ok(())
        })
    });
    equal(ctx);
    rotation(ctx);
}

/// the cached call and the direct call have one outcome
fn equal(ctx: &Ctx) {
    let r = (|| -> Result<_, String> {
        let w = World::standard()?;
        let o = World::standard()?;
        let r = call(EncNew, &w.good(EncNew, 0, 0))?;
        let d = call(DecNew, &w.good(DecNew, 0, 0))?;
        let mut t = w.good(DecNew, 0, 0);
        t[1] = Val::of(&w.uk_other);
        let d2 = call(DecNew, &t)?;
        if r.code != 0 || d.code != 0 || d2.code != 0 {
            return Err("the caches cannot be created".into());
        }
        Ok((w, o, r.handle, d.handle, d2.handle))
    })();
    let (w, o, enc, dec, dec2) = match r {
        Ok(x) => x,
        Err(m) => return ctx.case("equal setup", || Err(m)),
    };
    let mut attrs: Vec<Vec<u8>> = at_subsets(&w.spec.all()).into_iter().map(|a| attrs_json(&w.spec, &a).into_bytes()).collect();
    for a in ["[\"Q::x\"]", "[\"L::x\",\"Q::x\"]", "[\"D::r\",\"L::x\"]", "[\"L::x\",\"L::x\"]", "", "[", "{}", "[1]", "[\"L::x\",\"L::q\"]"] {
        attrs.push(a.into());
    }
    let metas: Vec<(Val, Val)> = vec![
        (Val::of(b"u"), Val::of(b"ad")),
        (Val::In(None, 0), Val::In(None, 0)),
        (Val::of(&[0; 70]), Val::In(None, 5)),
        (Val::In(Some(vec![1]), 0), Val::of(&[9; 99])),
        (Val::In(Some(vec![1]), -3), Val::In(Some(vec![1]), -3)),
        // sizes around those a narrow integer holds
        (Val::of(&[5; 127]), Val::of(&[6; 128])),
        (Val::of(&[5; 255]), Val::of(&[6; 257])),
        (Val::of(&[5; 256]), Val::of(&[6; 255])),
        (Val::of(&[5; 1025]), Val::of(&[6; 1024])),
        (Val::of(&[5; 65535]), Val::of(&[6; 65536])),
        (Val::of(&[5; 65536]), Val::of(&[6; 65535])),
        (Val::of(&[5; 65537]), Val::of(&[6; 70000])),
    ];
    let metas: Vec<(Val, Val)> = metas.into_iter().chain(crate::hyb::odd(false).into_iter().map(|c| (Val::of(&c), Val::of(&c)))).collect();
    let mut jobs = vec![];
    for a in &attrs {
        for (i, m) in metas.iter().enumerate() {
            if i == 0 || !ctx.quick() || (i < 5 && a.len() % 3 == 0) || (i >= 5 && a.len() % 11 == 0) {
                jobs.push((a.clone(), i, m.clone()));
            }
        }
    }
    ctx.par(&jobs, |(a, i, m)| {
        ctx.case(format!("equal encrypt {} {i}", String::from_utf8_lossy(a)), || {
            let mut d = w.good(Enc, 0, 0);
            let mut c = w.good(EncUse, enc, dec);
            d[4] = Val::st(a);
            c[3] = Val::st(a);
            (d[5], d[6]) = m.clone();
            (c[4], c[5]) = m.clone();
            let len = |v: &Val| if let Val::In(Some(b), _) = v { b.len() as i32 } else { 0 };
            let room = 128 + len(&m.0).max(len(&m.1));
            d[1] = Val::Out(true, Some(2000 + 2 * room));
            c[1] = d[1].clone();
            let (rd, ed) = (call(Enc, &d)?, last_error()?);
            let (rc, ec) = (call(EncUse, &c)?, last_error()?);
            if (rd.code == 0) != (rc.code == 0) {
                return Err(format!("the direct call returns {}, the cached one {}", rd.code, rc.code));
            }
            if ed.is_empty() != ec.is_empty() {
                return Err("one of the two calls leaves an error".into());
            }
            if rd.code == 0 {
                if rd.outs[1].len != rc.outs[1].len {
                    return Err("the headers have different sizes".into());
                }
                // both open alike, for an authorised and an unauthorised user
                for (h, what) in [(dec, "authorised"), (dec2, "other")] {
                    let mut got = vec![];
                    for r in [&rd, &rc] {
                        let mut x = w.good(DecUse, 0, h);
                        x[1] = Val::Out(true, Some(room));
                        x[2] = Val::Out(true, Some(room));
                        x[3] = Val::of(&r.outs[1].data);
                        let y = call(DecUse, &x)?;
                        last_error()?;
                        let mut z = x.clone();
                        z[4] = Val::of(if h == dec { &w.uk } else { &w.uk_other });
                        let z = call(Dec, &z)?;
                        last_error()?;
                        if (z.code == 0) != (y.code == 0) {
                            return Err(format!("{what} user: direct decryption returns {}, cached {}", z.code, y.code));
                        }
                        got.push((y.code, y.code == 0 && y.outs[0].data == r.outs[0].data, y.outs[1].data.clone(), y.outs[2].data.clone()));
                    }
                    if got[0] != got[1] || got[0].0 == 0 && !got[0].1 {
                        return Err(format!("{what} user: direct {:?}, cached {:?}", got[0], got[1]));
                    }
                }
            }
            ctx.state(1);
            ctx.op(6);
            ctx.outcome("direct and cached encryptions", 1);
            Ok(())
        })
    });
    let mut headers: Vec<(String, Vec<u8>)> = vec![("own".into(), w.header.clone()), ("other".into(), o.header.clone()), ("empty".into(), vec![0; 4])];
    for i in (0..w.header.len()).step_by(ctx.pick(9, 1)) {
        let mut h = w.header.clone();
        h[i] ^= 1 << (i % 8);
        headers.push((format!("flip {i}"), h));
        if i > 0 {
            headers.push((format!("cut {i}"), w.header[..i].to_vec()));
        }
    }
    headers.push(("longer".into(), cat(&[&w.header, &[0]])));
    ctx.par(&headers, |(n, h)| {
        ctx.case(format!("equal decrypt {n}"), || {
            for (k, handle) in [(&w.uk, dec), (&w.uk_other, dec2)] {
                for (u, a) in [(64, 64), (0, 64), (2, 64)] {
                    if u != 64 && n != "own" {
                        continue;
                    }
                    let mut d = w.good(Dec, 0, 0);
                    let mut c = w.good(DecUse, enc, handle);
                    d[4] = Val::of(k);
                    for x in [&mut d, &mut c] {
                        x[1] = Val::Out(true, Some(u));
                        x[2] = Val::Out(true, Some(a));
                        x[3] = Val::of(h);
                    }
                    let (rd, ed) = (call(Dec, &d)?, last_error()?);
                    let (rc, ec) = (call(DecUse, &c)?, last_error()?);
                    let pick = |r: &Res| (r.code == 0, r.outs.iter().map(|o| (o.len, o.data.clone())).collect::<Vec<_>>());
                    if pick(&rd) != pick(&rc) || ed.is_empty() != ec.is_empty() {
                        return Err(format!("direct {:?}, cached {:?}", pick(&rd), pick(&rc)));
                    }
                    ctx.state(1);
                    ctx.op(2);
                }
            }
            ctx.outcome("direct and cached decryptions", 1);
            Ok(())
        })
    });
}

/// a cache keeps the policy it was created from
fn rotation(ctx: &Ctx) {
    ctx.case("rotation", || {
        let w = World::standard()?;
        let a = |p: &str| vec![Val::Handle(true), Val::st(p), Val::of(&w.pk)];
        let c0 = call(EncNew, &a(&w.pol))?.handle;
        let r = call(Rotate, &[Val::Out(true, Some(3000)), Val::st("[\"D::r\"]"), Val::st(&w.pol)])?;
        let p1 = String::from_utf8(r.outs[0].data.clone()).map_err(s("policy"))?;
        let c1 = call(EncNew, &a(&p1))?.handle;
        let key = |p: &str| -> Result<i32, String> {
            let r = call(UserKey, &[Val::Out(true, Some(9000)), Val::of(&w.mk), Val::st(&w.access), Val::st(p)])?;
            if r.code != 0 {
                return Err("user key".into());
            }
            Ok(call(DecNew, &[Val::Handle(true), Val::of(&r.outs[0].data)])?.handle)
        };
        let (k0, k1) = (key(&w.pol)?, key(&p1)?);
        for round in 0..2 {
            for (c, want) in [(c0, [true, true]), (c1, [false, true])] {
                let r = call(EncUse, &w.good(EncUse, c, 0))?;
                if r.code != 0 {
                    return Err(format!("encryption with cache {c}: {}", String::from_utf8_lossy(&last_error()?)));
                }
                for (k, want) in [k0, k1].into_iter().zip(want) {
                    let mut x = w.good(DecUse, 0, k);
                    x[3] = Val::of(&r.outs[1].data);
                    let y = call(DecUse, &x)?;
                    last_error()?;
                    if (y.code == 0) != want {
                        return Err(format!("round {round}: cache made {} the rotation, key issued {} it: opens {}", if c == c0 { "before" } else { "after" }, if k == k0 { "before" } else { "after" }, !want));
                    }
                    ctx.op(1);
                    ctx.state(1);
                }
            }
            // other caches come and go in between
            let t = call(EncNew, &a(&w.pol))?.handle;
            call(EncDel, &[Val::Int(t)])?;
        }
        Ok(())
    });
}
