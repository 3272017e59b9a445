//! P05: collusion. Exact (not statistical) independence of the usable key parts from the master
//! secret: every resolution of the key authority's and the delegators' randomness is enumerated for
//! every value y of the master secret, and the resulting multisets of key parts are compared.
use std::collections::BTreeMap;

use cosmian_abe_gpsw::core::gpsw::AbeScheme;
use crate::{abe::*, form::*, sup::*, toy};

/// how a key of the pool is obtained
#[derive(Clone, Debug)]
enum Way {
    Issue(F),
    /// delegated from pool parent number i (parents are issued but not part of the pool)
    Del(usize, F),
    /// re-randomised
    Rand(usize, F),
    /// the parent itself joins the pool
    Parent(usize, F),
    /// delegated twice
    Del2(usize, F, F),
}
impl Way {
    fn f(&self) -> &F {
        match self {
            Way::Issue(f) | Way::Del(_, f) | Way::Rand(_, f) | Way::Parent(_, f) | Way::Del2(_, _, f) => f,
        }
    }
    fn text(&self) -> String {
        match self {
            Way::Issue(f) => f.text(),
            Way::Del(i, f) => format!("{} from parent {i}", f.text()),
            Way::Rand(i, f) => format!("{} randomised from parent {i}", f.text()),
            Way::Parent(i, f) => format!("{} (parent {i})", f.text()),
            Way::Del2(i, g, f) => format!("{} via {} from parent {i}", f.text(), g.text()),
        }
    }
}

fn build<A: Sch>(parents: &[F], pool: &[Way], mk: &Mk<A>, dk: &Dk<A>) -> Result<Option<Vec<ToyUk>>, String> {
    let ps = parents.iter().map(|p| keygen::<A>(&p.node(), mk)).collect::<Result<Vec<_>, _>>()?;
    let mut out = vec![];
    let del = |f: &F, k: &Uk<A>| -> Result<Option<Uk<A>>, String> {
        Ok(A::key_delegation(&A::default(), &Some(msp(&f.node())?), k, dk).ok())
    };
    for w in pool {
        let k = match w {
            Way::Issue(f) => keygen::<A>(&f.node(), mk)?,
            Way::Parent(i, _) => ps[*i].clone(),
            Way::Rand(i, _) => A::key_delegation(&A::default(), &None, &ps[*i], dk).map_err(s("key_delegation"))?,
            Way::Del(i, f) => match del(f, &ps[*i])? {
                Some(k) => k,
                None => return Ok(None),
            },
            Way::Del2(i, g, f) => {
                let Some(k) = del(g, &ps[*i])? else { return Ok(None) };
                match del(f, &k)? {
                    Some(k) => k,
                    None => return Ok(None),
                }
            }
        };
        out.push(read_toy_uk(&bytes(&k)?, 1));
    }
    Ok(Some(out))
}

fn independent<A: Sch>(ctx: &Ctx, q: u64, t: &[u64], parents: &[F], pool: &[Way]) -> Result<(), String> {
    let n = t.len() as u32;
    let mut runs: Vec<Vec<Vec<ToyUk>>> = vec![];
    let dk: Dk<A> = parse(&toy_dk(t, q, 1))?;
    for y in 0..q {
        let mk: Mk<A> = parse(&toy_mk(t, y, 1))?;
        let mut v = vec![];
        let mut refused = false;
        let k = toy::explore(false, 1 << 22, || {
            match build::<A>(parents, pool, &mk, &dk)? {
                Some(k) => v.push(k),
                None => refused = true,
            }
            Ok(())
        })?;
        ctx.op(k * (parents.len() + pool.len()) as u64);
        if refused {
            ctx.outcome("delegation impossible in this field", 1);
            return Ok(());
        }
        runs.push(v);
    }
    ctx.beat();
    let mut ls: Vec<u32> = pool.iter().flat_map(|w| w.f().leaves()).collect();
    ls.sort();
    ls.dedup();
    let _ = n;
    for gamma in subsets(&ls) {
        if gamma.is_empty() || pool.iter().any(|w| w.f().sat(&gamma)) {
            continue;
        }
        ctx.state(1);
        let mut first: Option<BTreeMap<Vec<u64>, u64>> = None;
        for (y, v) in runs.iter().enumerate() {
            let mut h: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
            for keys in v {
                let mut p = vec![];
                for k in keys {
                    for (i, a) in k.attrs.iter().enumerate() {
                        if gamma.contains(a) {
                            p.push(*a as u64);
                            p.push(k.d[i]);
                        }
                    }
                }
                *h.entry(p).or_insert(0) += 1;
            }
            ctx.trace(v.len() as u64);
            match &first {
                None => first = Some(h),
                Some(f) if *f == h => {}
                Some(f) => {
                    let w = h.iter().find(|(k, n)| f.get(*k) != Some(n)).or_else(|| f.iter().find(|(k, n)| h.get(*k) != Some(n)));
                    return Err(format!(
                        "ciphertext attributes {gamma:?}: the usable key parts depend on the master secret \
                         (parts {:?}: {} of {} draws for y=0, {} for y={y})",
                        w.map(|w| w.0),
                        w.map_or(0, |w| f.get(w.0).copied().unwrap_or(0)),
                        runs[0].len(),
                        w.map_or(0, |w| h.get(w.0).copied().unwrap_or(0)),
                    ));
                }
            }
        }
        ctx.outcome("independent", 1);
    }
    // the comparison is able to see a dependence: an accepting set must show one
    if pool.len() == 1 && q > 2 {
        let mut hs = vec![];
        for v in &runs {
            let mut h: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
            for keys in v {
                *h.entry(keys[0].d.clone()).or_insert(0) += 1;
            }
            hs.push(h);
        }
        if hs[0] == hs[1] {
            return Err("a complete key does not determine the master secret: it cannot decrypt".into());
        }
    }
    Ok(())
}

/// large keys: the parts that apply to a refused set are affine in the draws and in y; they are independent of y
/// exactly when the direction of y lies in the space of the draws
fn large(ctx: &Ctx, pool: &[F], parent: Option<&F>, cap: usize) -> Result<(), String> {
    use crate::lin::{affine, diff, refused, Q};
    type A = G61;
    let n = pool.iter().chain(parent).flat_map(|f| f.leaves()).max().unwrap() as usize + 1;
    let t: Vec<u64> = (0..n as u64).map(|i| i * i * 31 + 5 * i + 2).collect();
    let dk: Dk<A> = parse(&toy_dk(&t, Q, 8))?;
    let msps = pool.iter().map(|f| msp(&f.node())).collect::<Result<Vec<_>, _>>()?;
    let keys = |y: u64| -> Result<Vec<ToyUk>, String> {
        let mk: Mk<A> = parse(&toy_mk(&t, y, 8))?;
        let p = parent.map(|p| keygen::<A>(&p.node(), &mk)).transpose()?;
        pool.iter()
            .zip(&msps)
            .map(|(f, m)| {
                let k = match &p {
                    None => keygen::<A>(&f.node(), &mk)?,
                    Some(p) => <A as AbeScheme>::key_delegation(&A::default(), &Some(m.clone()), p, &dk).map_err(s("key_delegation"))?,
                };
                Ok(read_toy_uk(&bytes(&k)?, 8))
            })
            .collect()
    };
    let flat = |y: u64| Ok(keys(y)?.into_iter().flat_map(|k| k.d).collect::<Vec<u64>>());
    let Some(e) = affine(&|| flat(11))? else {
        ctx.outcome("not affine", 1);
        return Ok(());
    };
    ctx.op(e.runs);
    ctx.trace(e.runs);
    ctx.beat();
    let (at1, _) = toy::scripted(Q, &[], &|| flat(12))?;
    let (at9, _) = toy::scripted(Q, &[], &|| flat(20))?;
    let ydir = diff(&at1, &e.base);
    if diff(&at9, &e.base).iter().zip(&ydir).any(|(a, b)| *a != toy::mulm(9, *b, Q)) {
        ctx.outcome("not affine in y", 1);
        return Ok(());
    }
    let (shape, _) = toy::scripted(Q, &[], &|| keys(11))?;
    let attrs: Vec<u32> = shape.iter().flat_map(|k| k.attrs.clone()).collect();
    let mut sets: Vec<Vec<u32>> = pool.iter().flat_map(|f| refused(f, cap)).collect();
    for g in &mut sets {
        // a set refused by one key of the pool may satisfy another: take away leaves until none accepts
        while let Some(f) = pool.iter().find(|f| f.sat(g)) {
            let Some(i) = g.iter().rposition(|a| f.leaves().contains(a)) else { break };
            g.remove(i);
        }
        g.sort();
        g.dedup();
    }
    sets.sort();
    sets.dedup();
    for g in &sets {
        let pick = |v: &[u64]| -> Vec<u64> { v.iter().zip(&attrs).filter(|(_, a)| g.contains(a)).map(|(x, _)| *x).collect() };
        let span = crate::lin::Span::of(&e.dirs.iter().map(|d| pick(d)).collect::<Vec<_>>());
        ctx.state(1);
        if !span.has(&pick(&ydir)) {
            return Err(format!("ciphertext attributes {g:?}: the usable key parts depend on the master secret"));
        }
        ctx.outcome("independent (large keys)", 1);
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let single = |n: usize| vec![1u64, 2, 1, 2, 2, 1, 1, 2, 2][..n].to_vec();
    // large keys, alone, in pairs over the same attributes, delegated
    let cap = ctx.pick(60, 600);
    let mut larges: Vec<(Vec<F>, Option<F>)> = vec![];
    for n in if ctx.quick() { vec![8, 12, 19, 35, 66] } else { vec![8, 9, 12, 16, 17, 19, 24, 33, 35, 50, 65, 66, 100, 130] } {
        for f in crate::lin::larges(n) {
            larges.push((vec![f], None));
        }
    }
    for n in if ctx.quick() { vec![8, 17] } else { vec![8, 13, 17, 33, 40] } {
        let l = crate::lin::larges(n);
        for (i, f) in l.iter().enumerate() {
            let g = l[(i + 5) % l.len()].map(&|x| n + 1 - x);
            larges.push((vec![f.clone(), g.clone()], None));
            larges.push((vec![f.clone(), f.clone()], None));
        }
    }
    for n in if ctx.quick() { vec![8, 13] } else { vec![8, 13, 17, 24] } {
        for f in crate::lin::larges(n) {
            let rs = f.rewrites();
            let cs: Vec<F> = if rs.len() > 3 { vec![rs[0].clone(), rs[rs.len() / 2].clone(), rs[rs.len() - 1].clone()] } else { rs };
            for c in cs {
                larges.push((vec![c.clone(), c], Some(f.clone())));
            }
        }
    }
    ctx.par(&larges, |(pool, p)| {
        let names: Vec<String> = pool.iter().map(F::text).collect();
        ctx.case(format!("large {}{}", names.join(" with "), p.as_ref().map_or(String::new(), |p| format!(" from {}", p.text()))), || large(ctx, pool, p.as_ref(), cap));
    });
    // single keys
    let max = ctx.pick(7, 8);
    let mut items: Vec<F> = vec![];
    for k in 1..=max {
        items.extend(trees(&(1..=k as u32).collect::<Vec<_>>()));
        if (2..=4).contains(&k) {
            for p in permutations(&(1..=k as u32).collect::<Vec<_>>()).into_iter().skip(1) {
                items.extend(trees(&p));
            }
        }
    }
    ctx.par(&items, |f| {
        ctx.case(format!("one key {}", f.text()), || {
            independent::<G3x>(ctx, 3, &single(f.size() + 1), &[], &[Way::Issue(f.clone())])
        });
    });
    // pools of independently issued keys
    let at = [0u32, 1, 2];
    let mut fs: Vec<F> = vec![];
    for k in 1..=3 {
        fs.extend(trees_over(&at, k));
    }
    let small: Vec<F> = fs.iter().filter(|f| f.size() <= 2).cloned().collect();
    let mut pools: Vec<Vec<Way>> = vec![];
    for i in 0..fs.len() {
        for j in i..fs.len() {
            pools.push(vec![Way::Issue(fs[i].clone()), Way::Issue(fs[j].clone())]);
        }
    }
    for i in 0..small.len() {
        for j in i..small.len() {
            for k in j..small.len() {
                pools.push([i, j, k].iter().map(|x| Way::Issue(small[*x].clone())).collect());
            }
        }
    }
    let name = |p: &[Way]| p.iter().map(Way::text).collect::<Vec<_>>().join(" + ");
    ctx.par(&pools, |p| {
        ctx.case(format!("pool {}", name(p)), || independent::<G3x>(ctx, 3, &[1, 2, 2], &[], p));
    });
    // pools with delegated keys
    let mut dpools: Vec<(Vec<F>, Vec<Way>)> = vec![];
    let mut parents: Vec<F> = vec![];
    for k in 2..=3 {
        parents.extend(trees(&(0..k).collect::<Vec<_>>()));
    }
    for p in &parents {
        let cl = p.closure();
        let mut ways: Vec<Way> = cl.iter().map(|c| Way::Del(0, c.clone())).collect();
        ways.push(Way::Rand(0, p.clone()));
        ways.push(Way::Parent(0, p.clone()));
        for c in &cl {
            for d in c.closure() {
                if d != *c && c != p {
                    ways.push(Way::Del2(0, c.clone(), d));
                }
            }
        }
        for i in 0..ways.len() {
            dpools.push((vec![p.clone()], vec![ways[i].clone()]));
            for j in i..ways.len() {
                dpools.push((vec![p.clone()], vec![ways[i].clone(), ways[j].clone()]));
            }
        }
    }
    // different parents
    for p in &parents {
        for r in &small {
            for c in p.closure() {
                dpools.push((vec![p.clone()], vec![Way::Del(0, c), Way::Issue(r.clone())]));
            }
        }
    }
    // quick: drop pools whose enumeration is the largest
    let cost = |x: &(Vec<F>, Vec<Way>)| {
        let c = |f: &F| f.size() - 1;
        x.0.iter().map(c).sum::<usize>()
            + x.1
                .iter()
                .map(|w| match w {
                    Way::Parent(..) => 0,
                    Way::Del2(_, g, f) => c(g) + c(f),
                    w => c(w.f()),
                })
                .sum::<usize>()
    };
    let lim = ctx.pick(8, 9);
    dpools.retain(|p| cost(p) <= lim);
    ctx.note(format!("{} pools with delegated keys (randomness dimension <= {lim})", dpools.len()));
    ctx.par(&dpools, |(ps, w)| {
        ctx.case(format!("parent {} pool {}", ps[0].text(), name(w)), || {
            independent::<G3x>(ctx, 3, &[1, 2, 2], ps, w)?;
            if cost(&(ps.clone(), w.clone())) <= ctx.pick(4, 6) {
                independent::<G5>(ctx, 5, &[1, 2, 4], ps, w)?;
            }
            Ok(())
        });
    });
    ctx.sample(|| "for y in 0..3, all draws: parts of ((0&1)|2) on {0} have one multiset".into());
}
