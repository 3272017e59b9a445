//! P07: the distribution of a delegated key over the delegation's randomness is that of a fresh key
use std::collections::BTreeMap;

use cosmian_abe_gpsw::core::gpsw::AbeScheme;
use crate::{abe::*, form::*, sup::*, toy};

type H = BTreeMap<Vec<ToyUk>, u64>;

fn deleg<A: Sch>(f: Option<&F>, k: &Uk<A>, dk: &Dk<A>) -> Result<Option<Uk<A>>, String> {
    let m = match f {
        Some(f) => Some(msp(&f.node())?),
        None => None,
    };
    Ok(A::key_delegation(&A::default(), &m, k, dk).ok())
}
/// relative distribution: counts scaled to a common total
fn norm(h: &H) -> BTreeMap<&Vec<ToyUk>, (u64, u64)> {
    let t: u64 = h.values().sum();
    h.iter().map(|(k, n)| (k, { let g = gcd(*n, t); (n / g, t / g) })).collect()
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn same(a: &H, b: &H, what: &str) -> Result<(), String> {
    let (x, y) = (norm(a), norm(b));
    if x == y {
        return Ok(());
    }
    let w = x.iter().find(|(k, v)| y.get(*k) != Some(v)).or_else(|| y.iter().find(|(k, v)| x.get(*k) != Some(v)));
    Err(format!(
        "{what}: the distribution differs from a freshly issued key's ({} and {} outcomes), e.g. key {:?}: {:?} delegated, {:?} fresh",
        x.len(),
        y.len(),
        w.map(|w| w.0.iter().map(|k| (&k.attrs, &k.d)).collect::<Vec<_>>()),
        w.and_then(|w| x.get(w.0)),
        w.and_then(|w| y.get(w.0)),
    ))
}

fn one<A: Sch>(ctx: &Ctx, q: u64, p: &F, t: &[u64], joint: bool) -> Result<(), String> {
    let dk: Dk<A> = parse(&toy_dk(t, q, 1))?;
    for y in 0..q {
        let mk: Mk<A> = parse(&toy_mk(t, y, 1))?;
        let fresh = |f: &F| -> Result<H, String> {
            let mut h = H::new();
            let n = toy::explore(false, 1 << 20, || {
                *h.entry(vec![read_toy_uk(&bytes(&keygen::<A>(&f.node(), &mk)?)?, 1)]).or_insert(0) += 1;
                Ok(())
            })?;
            ctx.op(n);
            Ok(h)
        };
        // every parent key
        let parents: Vec<ToyUk> = fresh(p)?.into_keys().map(|mut v| v.remove(0)).collect();
        let mut targets: Vec<(Option<F>, F)> = p.closure().into_iter().map(|c| (Some(c.clone()), c)).collect();
        targets.push((None, p.clone()));
        let mut done = vec![];
        for (arg, c) in &targets {
            let want = fresh(c)?;
            for pk in &parents {
                let parent: Uk<A> = parse(&toy_uk(&pk.d, &pk.attrs, &pk.m, 1))?;
                let mut h = H::new();
                let mut refused = false;
                let n = toy::explore(false, 1 << 20, || {
                    match deleg::<A>(arg.as_ref(), &parent, &dk)? {
                        Some(k) => *h.entry(vec![read_toy_uk(&bytes(&k)?, 1)]).or_insert(0) += 1,
                        None => refused = true,
                    }
                    Ok(())
                })?;
                ctx.op(n);
                ctx.trace(n);
                if refused {
                    if arg.is_none() {
                        return Err("re-randomisation refused".into());
                    }
                    ctx.outcome("delegation impossible in this field", 1);
                    break;
                }
                ctx.state(1);
                same(&h, &want, &format!("y={y}, parent parts {:?} delegated to {}", pk.d, arg.as_ref().map_or("*".into(), F::text)))?;
                ctx.outcome("fresh", 1);
                if pk == parents.last().unwrap() {
                    done.push((arg.clone(), want.clone()));
                }
            }
        }
        ctx.beat();
        if joint {
            // two delegations of one parent: product distribution
            let parent: Vec<Uk<A>> = parents
                .iter()
                .map(|pk| parse(&toy_uk(&pk.d, &pk.attrs, &pk.m, 1)))
                .collect::<Result<_, _>>()?;
            for (a, wa) in &done {
                for (b, wb) in &done {
                    let mut want = H::new();
                    for (ka, na) in wa {
                        for (kb, nb) in wb {
                            *want.entry(vec![ka[0].clone(), kb[0].clone()]).or_insert(0) += na * nb;
                        }
                    }
                    for pk in &parent {
                        let mut h = H::new();
                        let n = toy::explore(false, 1 << 22, || {
                            let ka = deleg::<A>(a.as_ref(), pk, &dk)?.ok_or("refused")?;
                            let kb = deleg::<A>(b.as_ref(), pk, &dk)?.ok_or("refused")?;
                            *h.entry(vec![read_toy_uk(&bytes(&ka)?, 1), read_toy_uk(&bytes(&kb)?, 1)]).or_insert(0) += 1;
                            Ok(())
                        })?;
                        ctx.op(2 * n);
                        ctx.trace(n);
                        ctx.state(1);
                        let tx = |f: &Option<F>| f.as_ref().map_or("*".into(), F::text);
                        same(&h, &want, &format!("y={y}, delegated to {} and to {}", tx(a), tx(b)))?;
                        ctx.outcome("unlinkable pair", 1);
                    }
                }
            }
        }
    }
    Ok(())
}

/// chains: delegated key of a delegated key
fn chain<A: Sch>(ctx: &Ctx, q: u64, p: &F, t: &[u64]) -> Result<(), String> {
    let dk: Dk<A> = parse(&toy_dk(t, q, 1))?;
    let y = 1;
    let mk: Mk<A> = parse(&toy_mk(t, y, 1))?;
    for c in p.closure() {
        for d in c.closure() {
            let mut want = H::new();
            ctx.op(toy::explore(false, 1 << 20, || {
                *want.entry(vec![read_toy_uk(&bytes(&keygen::<A>(&d.node(), &mk)?)?, 1)]).or_insert(0) += 1;
                Ok(())
            })?);
            toy::generic(ctx.seed);
            let parent = keygen::<A>(&p.node(), &mk)?;
            let Some(k1) = deleg::<A>(Some(&c), &parent, &dk)? else { continue };
            let mut h = H::new();
            let mut refused = false;
            ctx.op(toy::explore(false, 1 << 20, || {
                match deleg::<A>(Some(&d), &k1, &dk)? {
                    Some(k) => *h.entry(vec![read_toy_uk(&bytes(&k)?, 1)]).or_insert(0) += 1,
                    None => refused = true,
                }
                Ok(())
            })?);
            if refused {
                continue;
            }
            ctx.state(1);
            ctx.trace(1);
            same(&h, &want, &format!("delegated to {} then {}", c.text(), d.text()))?;
        }
    }
    Ok(())
}

/// large keys: the distributions are those of affine spaces, compared as such
fn large(ctx: &Ctx, p: &F, targets: &[Option<F>]) -> Result<(), String> {
    use crate::lin::{affine, same, Span, Q};
    type A = G61;
    let n = p.leaves().into_iter().max().unwrap() as u64 + 1;
    let t: Vec<u64> = (0..n).map(|i| i * i * 31 + 5 * i + 2).collect();
    let dk: Dk<A> = parse(&toy_dk(&t, Q, 8))?;
    let mk: Mk<A> = parse(&toy_mk(&t, 1234567, 8))?;
    toy::generic(ctx.seed + 9);
    let parents = [keygen::<A>(&p.node(), &mk)?, keygen::<A>(&p.node(), &mk)?];
    for target in targets {
        let what = target.as_ref().map_or("*".to_string(), F::text);
        let c = target.as_ref().unwrap_or(p).node();
        let shape: std::cell::RefCell<Option<(Vec<u32>, Vec<Vec<u64>>)>> = Default::default();
        let flat = |k: Uk<A>| -> Result<Vec<u64>, String> {
            let k = read_toy_uk(&bytes(&k)?, 8);
            let sh = (k.attrs, k.m);
            let mut old = shape.borrow_mut();
            if old.get_or_insert(sh.clone()) != &sh {
                return Err("a delegated key has another span program than an issued one".into());
            }
            Ok(k.d)
        };
        let m = target.as_ref().map(|f| msp(&f.node())).transpose()?;
        let fresh = affine(&|| flat(keygen::<A>(&c, &mk)?))?;
        let Some(fresh) = fresh else {
            ctx.outcome("not affine", 1);
            continue;
        };
        ctx.op(fresh.runs);
        let del = |k: &Uk<A>| <A as AbeScheme>::key_delegation(&A::default(), &m, k, &dk).map_err(s("key_delegation"));
        for k in &parents {
            let Some(d) = affine(&|| flat(del(k)?)).map_err(|e| format!("delegated to {what}: {e}"))? else {
                ctx.outcome("not affine", 1);
                continue;
            };
            ctx.op(d.runs);
            ctx.trace(d.runs);
            ctx.state(1);
            if !same(&fresh, &d) {
                return Err(format!(
                    "delegated to {what}: the key lies in another space than an issued one (dimensions {} and {})",
                    Span::of(&d.dirs).dim(),
                    Span::of(&fresh.dirs).dim()
                ));
            }
            ctx.outcome("fresh (large keys)", 1);
            ctx.beat();
        }
        if p.size() <= 20 {
            // two delegations of one parent, together
            let k = &parents[0];
            let Some(d) = affine(&|| Ok([flat(del(k)?)?, flat(del(k)?)?].concat()))? else { continue };
            ctx.op(d.runs);
            if Span::of(&d.dirs).dim() != 2 * Span::of(&fresh.dirs).dim() {
                return Err(format!("two delegations to {what} of one key are related"));
            }
            ctx.outcome("unlinkable pair (large keys)", 1);
        }
    }
    Ok(())
}
fn all_or(f: &F, how: u8) -> F {
    match f {
        F::L(_) => f.clone(),
        F::A(a, b) => F::A(Box::new(all_or(a, how)), Box::new(all_or(b, how))),
        F::O(a, b) => match how {
            0 => all_or(a, how),
            1 => all_or(b, how),
            _ => F::A(Box::new(all_or(a, how)), Box::new(all_or(b, how))),
        },
    }
}
fn spread(v: Vec<F>, n: usize) -> Vec<F> {
    let k = v.len().div_ceil(n).max(1);
    v.into_iter().step_by(k).collect()
}

pub fn run(ctx: &Ctx) {
    let mut larges: Vec<(F, Vec<Option<F>>)> = vec![];
    for (n, k) in if ctx.quick() { vec![(7, 40), (9, 40), (17, 6), (36, 2)] } else { vec![(7, 100), (9, 100), (12, 100), (17, 60), (24, 20), (36, 8), (66, 2)] } {
        for f in crate::lin::larges(n) {
            let mut ts: Vec<Option<F>> = spread(f.rewrites(), k).into_iter().map(Some).collect();
            ts.extend((0..3).map(|h| Some(all_or(&f, h))));
            ts.push(Some(f.clone()));
            ts.push(None);
            ts.dedup();
            for t in ts {
                larges.push((f.clone(), vec![t]));
            }
        }
    }
    larges.sort_by_key(|x| std::cmp::Reverse(x.0.size()));
    ctx.par(&larges, |(f, ts)| {
        ctx.case(format!("large {} to {}", f.text(), ts[0].as_ref().map_or("*".into(), F::text)), || large(ctx, f, ts));
    });
    let mut items = vec![];
    for k in 1..=ctx.pick(5, 6) {
        items.extend(trees(&(0..k as u32).collect::<Vec<_>>()));
        if (2..=3).contains(&k) {
            for p in permutations(&(0..k as u32).collect::<Vec<_>>()).into_iter().skip(1) {
                items.extend(trees(&p));
            }
        }
    }
    items.sort_by_key(|f| std::cmp::Reverse(f.size()));
    ctx.par(&items, |f| {
        ctx.case(format!("F_3 delegation of {}", f.text()), || one::<G3x>(ctx, 3, f, &[1, 2, 2, 1, 2, 1][..f.size().max(3)], f.size() <= 3));
    });
    items.retain(|f| f.size() <= ctx.pick(3, 4));
    ctx.par(&items, |f| {
        ctx.case(format!("F_5 delegation of {}", f.text()), || {
            one::<G5>(ctx, 5, f, &[1, 2, 3, 4][..f.size().max(3)], f.size() <= 2)?;
            chain::<G5>(ctx, 5, f, &[1, 2, 3, 4][..f.size().max(3)])
        });
    });
    // the product: each delegation of one parent differs from the others and from the parent in
    // every component that the scheme randomises
    ctx.case("BLS12-381 delegated keys differ in every part", || {
        let (mk, _, dk) = master::<Bls>(4)?;
        for p in trees(&[0, 1, 2]).iter().filter(|p| p.text().contains('&')) {
            let parent = keygen::<Bls>(&p.node(), &mk)?;
            let parts = |k: &Uk<Bls>| -> Result<Vec<Vec<u8>>, String> {
                let b = bytes(k)?;
                let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
                Ok((0..n).map(|i| b[4 + 96 * i..100 + 96 * i].to_vec()).collect())
            };
            // in the toy field, which components are constant?
            let mkt: Mk<G3x> = parse(&toy_mk(&[1, 2, 1], 1, 1))?;
            let mut vals: Vec<std::collections::BTreeSet<u64>> = vec![];
            toy::explore(false, 1 << 20, || {
                let k = read_toy_uk(&bytes(&keygen::<G3x>(&p.node(), &mkt)?)?, 1);
                vals.resize(k.d.len(), Default::default());
                for (i, d) in k.d.iter().enumerate() {
                    vals[i].insert(*d);
                }
                Ok(())
            })?;
            let mut seen = vec![parts(&parent)?];
            for arg in [None, Some(p), None, Some(p)] {
                let k = deleg::<Bls>(arg, &parent, &dk)?.ok_or("refused")?;
                let k = parts(&k)?;
                ctx.op(1);
                for old in &seen {
                    for i in 0..k.len() {
                        ctx.trace(1);
                        if (old[i] == k[i]) != (vals[i].len() == 1) {
                            return Err(format!("{}: part {i} of two keys: equal is {}", p.text(), old[i] == k[i]));
                        }
                    }
                }
                seen.push(k);
            }
        }
        Ok(())
    });
    ctx.sample(|| "all draws of delegating ((0|1)&2) to (0&2) = all draws of issuing (0&2)".into());
}
