//! P17: output buffers of the C interface
use crate::{ffi::*, pol::*, sup::*};

/// the reference: which capacities are enough
fn enough(o: &Val, need: i32, optional: bool) -> Option<bool> {
    match o {
        Val::Out(true, Some(c)) if *c > 0 => Some(*c >= need),
        _ if optional => None, // not asked for
        _ => Some(false),
    }
}
fn optional(f: Fun, i: usize) -> bool {
    matches!(f, Dec | DecUse) && i > 0
}

/// one call with these capacities, then retries with the sizes reported
fn attempt(ctx: &Ctx, w: &World, f: Fun, args: &[Val], need: &[i32]) -> Result<(), String> {
    let mut a = args.to_vec();
    for round in 0..=need.len() {
        last_error()?;
        let outs: Vec<usize> = (0..a.len()).filter(|i| matches!(a[*i], Val::Out(..))).collect();
        let caps: Vec<String> = outs.iter().map(|i| format!("{:?}", a[*i])).collect();
        let what = format!("{f:?} {caps:?} where {need:?} are needed (call {round})");
        let r = call(f, &a).map_err(|m| format!("{what}: {m}"))?;
        ctx.op(1);
        let fits: Vec<Option<bool>> = outs.iter().enumerate().map(|(k, i)| enough(&a[*i], need[k], optional(f, k))).collect();
        let ok = fits.iter().all(|x| *x != Some(false));
        if (r.code == 0) != ok {
            return Err(format!("{what}: {} (code {})", if ok { "fails" } else { "succeeds" }, r.code));
        }
        if r.code == 0 {
            for (k, o) in r.outs.iter().enumerate() {
                if fits[k] == Some(true) && o.len != Some(need[k]) {
                    return Err(format!("{what}: output {k} reports {:?} bytes", o.len));
                }
                if fits[k].is_none() && o.beyond.is_some() {
                    return Err(format!("{what}: output {k} is written although it was not asked for"));
                }
            }
            w.verify(f, &a, &r, false, &mut |_| ()).map_err(|m| format!("{what}: {m}"))?;
            ctx.outcome(if round == 0 { "enough" } else { "enough after retries" }, 1);
            return Ok(());
        }
        if last_error()?.is_empty() {
            return Err(format!("{what}: fails without a message"));
        }
        let mut told = false;
        for (k, i) in outs.iter().enumerate() {
            let Val::Out(true, Some(c)) = a[*i] else { continue };
            let l = r.outs[k].len.unwrap();
            if c <= 0 {
                if l != c && l != need[k] {
                    return Err(format!("{what}: output {k} reports {l}"));
                }
                continue;
            }
            if l != c && l != need[k] {
                return Err(format!("{what}: output {k} reports {l} bytes"));
            }
            if fits[k] == Some(false) && l == need[k] {
                told = true;
            }
            a[*i] = Val::Out(true, Some(l));
        }
        let positive = fits.iter().enumerate().all(|(k, x)| *x != Some(false) || matches!(a[outs[k]], Val::Out(true, Some(c)) if c > 0));
        if !positive {
            ctx.outcome("refused without a buffer", 1);
            return Ok(());
        }
        if !told {
            return Err(format!("{what}: no buffer that is too small has its size reported"));
        }
        ctx.outcome("too small", 1);
    }
    Err(format!("{f:?} needs {need:?}: the retries with the reported sizes do not succeed"))
}

/// sizes needed, from a call with ample room
fn needs(w: &World, f: Fun, args: &[Val]) -> Result<Vec<i32>, String> {
    let a: Vec<Val> = args.iter().map(|v| if let Val::Out(..) = v { Val::Out(true, Some(20000)) } else { v.clone() }).collect();
    let r = call(f, &a)?;
    if r.code != 0 {
        return Err(format!("{f:?} with ample room: {}", String::from_utf8_lossy(&last_error()?)));
    }
    w.verify(f, &a, &r, true, &mut |_| ()).map_err(|m| format!("{f:?} with ample room: {m}"))?;
    Ok(r.outs.iter().map(|o| o.len.unwrap()).collect())
}

fn caps(need: i32, dense: bool, opt: bool) -> Vec<Val> {
    let mut v: Vec<i32> = if dense {
        (1..need + 4).collect()
    } else {
        let mut v: Vec<i32> = (-3..=3).map(|d| need + d).collect();
        v.extend([1, 2, 3, 4, 5, 8, 12, 16, 24, 28, 31, 32, 33, 48, 64, 255, 256, 257, 1024, need / 2, need * 2, need + 100, 65535, 65536, 65537]);
        v
    };
    v.retain(|c| *c > 0);
    v.sort();
    v.dedup();
    let mut o: Vec<Val> = v.into_iter().map(|c| Val::Out(true, Some(c))).collect();
    if opt {
        o.extend([Val::Out(true, Some(0)), Val::Out(true, Some(-1)), Val::Out(false, None), Val::Out(false, Some(9))]);
    } else {
        o.extend([Val::Out(true, Some(0)), Val::Out(true, Some(-7))]);
    }
    o
}
/// short menu for combinations
fn few(need: i32, opt: bool) -> Vec<Val> {
    let mut v = vec![1, need - 1, need, need + 1, need / 2, need + 60];
    v.retain(|c| *c > 0);
    v.sort();
    v.dedup();
    let mut o: Vec<Val> = v.into_iter().map(|c| Val::Out(true, Some(c))).collect();
    if opt {
        o.extend([Val::Out(true, Some(0)), Val::Out(false, None)]);
    }
    o
}

pub fn p17(ctx: &Ctx) {
    let sp = |max| Spec::new(&[("L", &["x", "y"], true), ("D", &["r", "h"], false)], max);
    let pat = |n: usize| (0..n).map(|i| (i * 7 + 1) as u8).collect::<Vec<u8>>();
    let mut worlds = vec![];
    // (identifier, additional data, attributes, data)
    let shapes: Vec<(usize, usize, Vec<At>, usize)> = vec![
        (5, 4, vec![(0, 0), (1, 0)], 9),
        (0, 0, vec![(0, 1), (1, 0)], 1),
        (1, 0, vec![(1, 0), (0, 0)], 16),
        (0, 1, vec![(0, 0), (0, 1), (1, 0)], 17),
        (32, 33, vec![(0, 0), (0, 1), (1, 0), (1, 1)], 100),
        (300, 2, vec![(0, 0), (1, 0)], 500),
    ];
    for (i, (u, a, at, d)) in shapes.into_iter().enumerate() {
        if ctx.quick() && i == 2 {
            continue;
        }
        let ap = Ap::and(Ap::L((0, 1)), Ap::L((1, 0)));
        // a key for an attribute no header carries, or never matched
        let w = if at.len() == 4 {
            World::new(sp(5), &Ap::L((0, 0)), &Ap::and(Ap::L((0, 0)), Ap::L((1, 1))), &at[..3], &pat(u), &pat(a), &pat(d))
        } else {
            World::new(sp(6 + i as u32), &ap, &Ap::L((1, 1)), &at, &pat(u), &pat(a), &pat(d))
        };
        match w {
            Ok(w) => worlds.push(w),
            Err(m) => return ctx.case(format!("world {i}"), || Err(m)),
        }
    }
    let mut jobs: Vec<(usize, Fun, Vec<Val>, Vec<i32>)> = vec![];
    let t0 = std::time::Instant::now();
    for (wi, w) in worlds.iter().enumerate() {
        let r = (|| -> Result<(), String> {
            let make = |f: Fun| -> Result<i32, String> {
                let r = call(f, &w.good(f, 0, 0))?;
                if r.code != 0 {
                    return Err(format!("{f:?}: {}", String::from_utf8_lossy(&last_error()?)));
                }
                Ok(r.handle)
            };
            let (enc, dec) = (make(EncNew)?, make(DecNew)?);
            for f in [Master, UserKey, Rotate, EncUse, Enc, DecUse, Dec, BlockEnc, BlockDec] {
                if wi >= 2 && ctx.quick() && matches!(f, Master | Enc) {
                    continue;
                }
                let args = w.good(f, enc, dec);
                let need = needs(w, f, &args)?;
                let outs: Vec<usize> = (0..args.len()).filter(|i| matches!(args[*i], Val::Out(..))).collect();
                let cheap = matches!(f, Rotate | BlockEnc | BlockDec);
                // each capacity alone
                for (k, i) in outs.iter().enumerate() {
                    let dense = cheap || need[k] <= 40 && wi < 2 || !ctx.quick();
                    for c in caps(need[k], dense, optional(f, k)) {
                        let mut a = args.clone();
                        for (j, o) in outs.iter().enumerate() {
                            a[*o] = Val::Out(true, Some(need[j].max(1)));
                        }
                        a[*i] = c;
                        jobs.push((wi, f, a, need.clone()));
                    }
                }
                // all capacities together
                if outs.len() > 1 && (wi < 2 || !ctx.quick()) {
                    let menus: Vec<Vec<Val>> = outs.iter().enumerate().map(|(k, _)| few(need[k], optional(f, k))).collect();
                    let total: usize = menus.iter().map(Vec::len).product();
                    for n in 0..total {
                        let (mut x, mut a) = (n, args.clone());
                        for (k, m) in menus.iter().enumerate() {
                            a[outs[k]] = m[x % m.len()].clone();
                            x /= m.len();
                        }
                        jobs.push((wi, f, a, need.clone()));
                    }
                }
            }
            Ok(())
        })();
        if let Err(m) = r {
            ctx.case(format!("needs {wi}"), || Err(m));
            return;
        }
    }
    // data of every size
    for n in (1..=ctx.pick(70, 300)).chain([1000, 5000]) {
        let w = &worlds[0];
        for f in [BlockEnc, BlockDec] {
            let mut a = w.good(f, 0, 0);
            if f == BlockEnc {
                a[4] = Val::of(&pat(n));
                for c in [n, n + 27, n + 28, n + 29] {
                    a[0] = Val::Out(true, Some(c as i32));
                    jobs.push((0, f, a.clone(), vec![n as i32 + 28]));
                }
            }
        }
    }
    // the size the interface announces in advance: the overhead of a block
    ctx.case("overhead", || {
        let o = call(Overhead, &[])?.code;
        for n in (1..=ctx.pick(70, 300)).chain([1000, 5000, 1 << 20]) {
            let mut a = worlds[0].good(BlockEnc, 0, 0);
            a[4] = Val::of(&pat(n));
            a[0] = Val::Out(true, Some(n as i32 + o));
            ctx.op(1);
            let r = call(BlockEnc, &a)?;
            if r.code != 0 || r.outs[0].data.len() != n + o as usize {
                return Err(format!("{n} bytes of data: a buffer with the overhead of {o} gives status {} and {} bytes", r.code, r.outs[0].data.len()));
            }
        }
        Ok(())
    });
    if std::env::var("MC_TIME").is_ok() {
        eprintln!("{} jobs {:?}", jobs.len(), t0.elapsed());
    }
    for w in &worlds {
        ctx.note(format!("identifier {} bytes, additional data {}, header {}, block {}", w.uid.len(), w.ad.len(), w.header.len(), w.block.len()));
    }
    ctx.par(&jobs, |(wi, f, a, need)| {
        let outs: Vec<String> = a
            .iter()
            .filter_map(|v| match v {
                Val::Out(p, c) => Some(format!("{}{}", if *p { "" } else { "null/" }, c.map_or("null".into(), |c| c.to_string()))),
                _ => None,
            })
            .collect();
        let extra = if let (BlockEnc, Val::In(_, n)) = (*f, &a[a.len() - 1]) { format!(" data {n}") } else { String::new() };
        ctx.case(format!("{f:?} world {wi} caps {}{extra}", outs.join(",")), || {
            ctx.state(1);
            ctx.trace(1);
            attempt(ctx, &worlds[*wi], *f, a, need)
        })
    });
}
