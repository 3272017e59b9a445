//! P06: what a delegated key opens
use std::collections::BTreeMap;

use crate::{abe::*, form::*, pol::*, sup::*, toy};
use cosmian_abe_gpsw::core::Engine;
use cosmian_abe_gpsw::interfaces::abe_policy::AccessPolicy;

fn delegate<A: Sch>(f: Option<&F>, k: &Uk<A>, dk: &Dk<A>) -> Result<Result<Uk<A>, String>, String> {
    let m = match f {
        Some(f) => Some(msp(&f.node())?),
        None => None,
    };
    Ok(A::key_delegation(&A::default(), &m, k, dk).map_err(|e| e.to_string()))
}

struct Ring<A: Sch> {
    mk: Mk<A>,
    dk: Dk<A>,
    cts: Vec<(Vec<u32>, Ct<A>, Vec<u8>)>,
}
fn ring<A: Sch>(n: usize, attrs: &[u32]) -> Result<Ring<A>, String> {
    let (mk, pk, dk) = master::<A>(n)?;
    let mut cts = vec![];
    for sub in subsets(attrs) {
        let m = rand_pt::<A>()?;
        let ct = enc::<A>(&m, &sub, &pk)?;
        cts.push((sub, ct, bytes(&m)?));
    }
    Ok(Ring { mk, dk, cts })
}
impl<A: Sch> Ring<A> {
    fn exact(&self, ctx: &Ctx, k: &Uk<A>, f: &F, what: &str) -> Result<(), String> {
        for (sub, ct, m) in &self.cts {
            let e = f.sat(sub);
            judge(&dec::<A>(ct, k)?, e, m).map_err(|x| format!("{what}: ciphertext {sub:?}: {x}"))?;
            ctx.trace(1);
            ctx.outcome(if e { "opened" } else { "refused" }, 1);
        }
        Ok(())
    }
    /// never recovers the message where `f` refuses
    fn bounded(&self, ctx: &Ctx, k: &Uk<A>, f: &F, what: &str) -> Result<(), String> {
        for (sub, ct, m) in &self.cts {
            if !f.sat(sub) {
                if let Dec::Msg(x) = dec::<A>(ct, k)? {
                    if x == *m {
                        return Err(format!("{what}: ciphertext {sub:?} opened although the original key refuses it"));
                    }
                }
                ctx.trace(1);
                ctx.outcome("not widened", 1);
            }
        }
        Ok(())
    }
}

fn rewrites<A: Sch>(ctx: &Ctx, p: &F, chain: bool) -> Result<(), String> {
    let attrs: Vec<u32> = {
        let mut l = p.leaves();
        l.push(p.leaves().len() as u32 + 1);
        l.sort();
        l.dedup();
        l
    };
    let r = ring::<A>(attrs.iter().max().unwrap().to_owned() as usize + 2, &attrs)?;
    let k = keygen::<A>(&p.node(), &r.mk)?;
    for c in p.closure() {
        ctx.state(1);
        ctx.op(1);
        let d = delegate::<A>(Some(&c), &k, &r.dk)?.map_err(|e| format!("delegation to {} refused: {e}", c.text()))?;
        r.exact(ctx, &d, &c, &format!("delegated to {}", c.text()))?;
        ctx.beat();
        if chain {
            // any further rewrite, one more level, through a serialised key
            let d: Uk<A> = parse(&bytes(&d)?)?;
            for c2 in c.rewrites() {
                ctx.state(1);
                ctx.op(1);
                let d2 = delegate::<A>(Some(&c2), &d, &r.dk)?
                    .map_err(|e| format!("delegation to {} then {} refused: {e}", c.text(), c2.text()))?;
                r.exact(ctx, &d2, &c2, &format!("delegated to {} then {}", c.text(), c2.text()))?;
            }
        }
    }
    // randomised, twice
    let d = delegate::<A>(None, &k, &r.dk)?.map_err(|e| format!("delegation to * refused: {e}"))?;
    r.exact(ctx, &d, p, "delegated to *")?;
    let d = delegate::<A>(None, &d, &r.dk)?.map_err(|e| format!("delegation to * refused: {e}"))?;
    r.exact(ctx, &d, p, "delegated to * twice")
}

/// full rewrite chains: every path of single rewrites to the bottom
fn chains<A: Sch>(ctx: &Ctx, p: &F) -> Result<(), String> {
    let mut attrs = p.leaves();
    attrs.sort();
    let r = ring::<A>(attrs.len() + 2, &attrs)?;
    let k = keygen::<A>(&p.node(), &r.mk)?;
    let mut todo = vec![(p.clone(), k, p.text())];
    while let Some((f, k, path)) = todo.pop() {
        for c in f.rewrites() {
            ctx.state(1);
            ctx.op(1);
            let what = format!("{path} > {}", c.text());
            let d = delegate::<A>(Some(&c), &k, &r.dk)?.map_err(|e| format!("{what} refused: {e}"))?;
            r.exact(ctx, &d, &c, &what)?;
            if what.len() < 400 {
                todo.push((c, d, what));
            }
        }
        ctx.beat();
    }
    Ok(())
}

/// a large key against its maximal refused sets and its minimal accepted ones
fn boundary<A: Sch>(ctx: &Ctx, k: &Uk<A>, f: &F, pk: &Pk<A>, cap: usize, all: &[u32], what: &str) -> Result<(), String> {
    let mut sets = crate::lin::refused(f, cap);
    for i in 0..sets.len() {
        // one more attribute that is accepted with it
        if let Some(a) = f.leaves().into_iter().find(|a| !sets[i].contains(a) && f.sat(&[sets[i].clone(), vec![*a]].concat())) {
            sets.push([sets[i].clone(), vec![a]].concat());
        }
    }
    // attributes that the key no longer has do not count
    let gone: Vec<u32> = all.iter().copied().filter(|a| !f.leaves().contains(a)).collect();
    sets.extend(sets.clone().into_iter().map(|v| [gone.clone(), v].concat()));
    sets.sort();
    sets.dedup();
    for v in sets.into_iter().filter(|v| !v.is_empty()) {
        let m = rand_pt::<A>()?;
        let e = f.sat(&v);
        judge(&dec::<A>(&enc::<A>(&m, &v, pk)?, k)?, e, &bytes(&m)?).map_err(|x| format!("{what}: ciphertext {v:?}: {x}"))?;
        ctx.trace(1);
        ctx.op(2);
        ctx.outcome(if e { "opened" } else { "refused" }, 1);
    }
    ctx.beat();
    Ok(())
}
fn large<A: Sch>(ctx: &Ctx, f: &F, c: &F, cap: usize) -> Result<(), String> {
    let all = f.leaves();
    let (mk, pk, dk) = master::<A>(*all.iter().max().unwrap() as usize + 2)?;
    let k = keygen::<A>(&f.node(), &mk)?;
    let d = delegate::<A>(Some(c), &k, &dk)?.map_err(|e| format!("refused: {e}"))?;
    ctx.state(1);
    boundary::<A>(ctx, &d, c, &pk, cap, &all, "delegated")?;
    let r = delegate::<A>(None, &d, &dk)?.map_err(|e| format!("* refused: {e}"))?;
    boundary::<A>(ctx, &r, c, &pk, cap.min(4), &all, "delegated and randomised")
}
/// many delegations one after another: to the key's own policy, to `*`, and from time to time a real restriction
fn long_chain<A: Sch>(ctx: &Ctx, f: &F, n: usize) -> Result<(), String> {
    let all = f.leaves();
    let (mk, pk, dk) = master::<A>(*all.iter().max().unwrap() as usize + 2)?;
    let mut k = keygen::<A>(&f.node(), &mk)?;
    let mut f = f.clone();
    for i in 0..n {
        let rs = f.rewrites();
        let arg = if i % 11 == 10 && !rs.is_empty() {
            f = rs[i % rs.len()].clone();
            Some(f.clone())
        } else if i % 2 == 0 {
            None
        } else {
            Some(f.clone())
        };
        k = delegate::<A>(arg.as_ref(), &k, &dk)?.map_err(|e| format!("delegation {i} refused: {e}"))?;
        ctx.state(1);
        ctx.op(1);
        if i % 5 == 4 {
            k = parse(&bytes(&k)?)?;
        }
        boundary::<A>(ctx, &k, &f, &pk, 3, &all, &format!("delegation {i}"))?;
    }
    Ok(())
}

/// any child whatever: no widening; absent attributes refused
fn any_child<A: Sch>(ctx: &Ctx, p: &F, children: &[F], attrs: &[u32]) -> Result<(), String> {
    let r = ring::<A>(attrs.len() + 2, attrs)?;
    let k = keygen::<A>(&p.node(), &r.mk)?;
    let cl = p.closure();
    let pl = p.leaves();
    for c in children {
        ctx.state(1);
        ctx.op(1);
        let d = delegate::<A>(Some(c), &k, &r.dk)?;
        let what = format!("delegated to {}", c.text());
        if c.leaves().iter().any(|a| !pl.contains(a)) {
            if d.is_ok() {
                return Err(format!("{what}: an attribute absent from the original key was accepted"));
            }
            ctx.outcome("absent attribute refused", 1);
            continue;
        }
        match d {
            Ok(d) => {
                r.bounded(ctx, &d, p, &what)?;
                if cl.contains(c) {
                    r.exact(ctx, &d, c, &what)?;
                }
                // again: what comes out can still not be widened
                for c2 in children.iter().filter(|c| c.size() <= 2 || c.size() == p.size()) {
                    if let Ok(d2) = delegate::<A>(Some(c2), &d, &r.dk)? {
                        ctx.op(1);
                        r.bounded(ctx, &d2, p, &format!("{what} then {}", c2.text()))?;
                    }
                }
                if let Ok(d2) = delegate::<A>(None, &d, &r.dk)? {
                    r.bounded(ctx, &d2, p, &format!("{what} then *"))?;
                }
            }
            Err(_) if cl.contains(c) => return Err(format!("{what}: refused")),
            Err(_) => ctx.outcome("not more restrictive: refused", 1),
        }
        ctx.beat();
    }
    Ok(())
}

/// text of access policies through the engine, over a policy
fn engine<A: Sch>(ctx: &Ctx, sp: &Spec, ap: &Ap, menu: &[Ap]) -> Result<(), String> {
    let pol = sp.policy()?;
    let (mk, pk, dk) = e_master::<A>(&pol)?;
    let k = e_key::<A>(&pol, &mk, &ap.real(sp))?;
    let mut cts = vec![];
    for at in at_subsets(&sp.all()) {
        let m = e_pt::<A>()?;
        cts.push((at.clone(), e_enc::<A>(&pol, &pk, &sp.attrs(&at), &m)?, bytes(&m)?));
    }
    let e = Engine::<A>::new();
    let own: Vec<At> = if *ap == Ap::All { sp.all() } else { ap.leaves().iter().flat_map(|a| sp.expand(*a)).collect() };
    for c in menu {
        if c.repeats(sp) {
            continue;
        }
        ctx.state(1);
        ctx.op(1);
        let r = e.delegate_user_key(&pol, &dk, &k, &c.real(sp));
        let what = format!("{} delegated to {}", ap.text(sp), c.text(sp));
        let absent = *c != Ap::All && c.leaves().iter().flat_map(|a| sp.expand(*a)).any(|a| !own.contains(&a));
        if absent {
            if r.is_ok() {
                return Err(format!("{what}: an attribute absent from the original key was accepted"));
            }
            ctx.outcome("absent attribute refused", 1);
            continue;
        }
        if let Err(x) = &r {
            if *c == Ap::All || c == ap {
                return Err(format!("{what}: refused: {x}"));
            }
        }
        let Ok(d) = r else {
            ctx.outcome("not more restrictive: refused", 1);
            continue;
        };
        for (at, ct, m) in &cts {
            let has = |a: At| at.contains(&a);
            let orig = ap.eval(sp, &has);
            let want = if *c == Ap::All { orig } else { c.eval(sp, &has) };
            let got = e_dec::<A>(ct, &d)?;
            ctx.trace(1);
            if got == Dec::Msg(m.clone()) && !orig {
                return Err(format!("{what}: opened {at:?} although the original key refuses it"));
            }
            // leaves stay below: exact when the child is the wildcard or the same policy
            if *c == Ap::All || c == ap {
                judge(&got, want, m).map_err(|x| format!("{what}: {at:?}: {x}"))?;
            }
        }
    }
    Ok(())
}

fn ap_closure(a: &Ap) -> Vec<Ap> {
    match a {
        Ap::L(_) | Ap::All => vec![a.clone()],
        Ap::A(x, y) => {
            let mut v = vec![];
            for x in ap_closure(x) {
                for y in ap_closure(y) {
                    v.push(Ap::and(x.clone(), y));
                }
            }
            v
        }
        Ap::O(x, y) => {
            let (cx, cy) = (ap_closure(x), ap_closure(y));
            let mut v = cx.clone();
            v.extend(cy.clone());
            for x in &cx {
                for y in &cy {
                    v.push(Ap::and(x.clone(), y.clone()));
                    v.push(Ap::or(x.clone(), y.clone()));
                }
            }
            v
        }
    }
}

fn engine_exact<A: Sch>(ctx: &Ctx, sp: &Spec, ap: &Ap) -> Result<(), String> {
    let pol = sp.policy()?;
    let (mk, pk, dk) = e_master::<A>(&pol)?;
    let k = e_key::<A>(&pol, &mk, &ap.real(sp))?;
    let mut cts = vec![];
    for at in at_subsets(&sp.all()) {
        let m = e_pt::<A>()?;
        cts.push((at.clone(), e_enc::<A>(&pol, &pk, &sp.attrs(&at), &m)?, bytes(&m)?));
    }
    for c in ap_closure(ap) {
        ctx.state(1);
        ctx.op(1);
        let d = Engine::<A>::new()
            .delegate_user_key(&pol, &dk, &k, &c.real(sp))
            .map_err(|e| format!("delegation to {} refused: {e}", c.text(sp)))?;
        for (at, ct, m) in &cts {
            ctx.trace(1);
            judge(&e_dec::<A>(ct, &d)?, c.eval(sp, &|a| at.contains(&a)), m)
                .map_err(|x| format!("delegated to {}: {at:?}: {x}", c.text(sp)))?;
        }
    }
    Ok(())
}

/// delegation when attributes have been rotated between key issue and delegation, in either order of the policies
fn across<A: Sch>(ctx: &Ctx, sp: &Spec, ap: &Ap, rot: &[At], menu: &[Ap]) -> Result<(), String> {
    let mut pols = vec![sp.policy()?];
    let mut vers: Vec<BTreeMap<At, u32>> = vec![sp.all().into_iter().map(|a| (a, 0)).collect()];
    for a in rot {
        let mut p = pols.last().unwrap().clone();
        p.rotate(&sp.attr(*a)).map_err(s("rotate"))?;
        let mut v = vers.last().unwrap().clone();
        *v.get_mut(a).unwrap() += 1;
        pols.push(p);
        vers.push(v);
    }
    let (mk, pk, dk) = e_master::<A>(&pols[0])?;
    let mut cts = vec![];
    for (g, p) in pols.iter().enumerate() {
        for at in at_subsets(&sp.all()) {
            if at.is_empty() || g > 0 && !at.contains(&rot[g - 1]) {
                continue; // nothing new in this generation
            }
            let m = e_pt::<A>()?;
            cts.push((at.clone(), g, e_enc::<A>(p, &pk, &sp.attrs(&at), &m)?, bytes(&m)?));
        }
    }
    let en = Engine::<A>::new();
    let kids: Vec<Ap> = if *ap == Ap::All { menu.to_vec() } else { ap_closure(ap).into_iter().chain([Ap::All]).collect() };
    for (i, p) in pols.iter().enumerate() {
        let k = e_key::<A>(p, &mk, &ap.real(sp))?;
        for (j, q) in pols.iter().enumerate() {
            for c in &kids {
                ctx.state(1);
                ctx.op(1);
                let what = || format!("key issued after {i} rotations of {rot:?}, delegated to {} under the policy after {j}", c.text(sp));
                let used: Vec<At> = c.leaves().iter().flat_map(|a| sp.expand(*a)).collect();
                let newer = used.iter().any(|a| vers[j][a] > vers[i][a]);
                let d = match en.delegate_user_key(q, &dk, &k, &c.real(sp)) {
                    Err(_) if newer => {
                        ctx.outcome("newer value refused", 1);
                        continue;
                    }
                    Ok(_) if newer => return Err(format!("{}: values absent from the original key are accepted", what())),
                    Err(e) => return Err(format!("{}: refused: {e}", what())),
                    Ok(d) => d,
                };
                let (f, w) = if *c == Ap::All { (ap, &vers[i]) } else { (c, &vers[j]) };
                for (at, g, ct, m) in &cts {
                    ctx.trace(1);
                    let want = f.eval(sp, &|a| at.contains(&a) && vers[*g][&a] <= w[&a]);
                    judge(&e_dec::<A>(ct, &d)?, want, m).map_err(|x| format!("{}: {at:?} encrypted after {g} rotations: {x}", what()))?;
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    // closures
    let max = ctx.pick(6, 7);
    let mut items = vec![];
    for k in 1..=max {
        items.extend(trees(&(1..=k as u32).collect::<Vec<_>>()));
        if (2..=4).contains(&k) {
            for p in permutations(&(1..=k as u32).collect::<Vec<_>>()).into_iter().skip(1) {
                items.extend(trees(&p));
            }
        }
    }
    items.sort_by_key(|f| std::cmp::Reverse(f.size()));
    ctx.par(&items, |f| {
        ctx.case(format!("rewrites of {}", f.text()), || {
            toy::generic(ctx.seed);
            rewrites::<G61>(ctx, f, f.size() <= 4)
        });
    });
    let mut ch = vec![];
    for k in 2..=ctx.pick(3, 4) {
        ch.extend(trees(&(1..=k as u32).collect::<Vec<_>>()));
    }
    ctx.par(&ch, |f| {
        ctx.case(format!("chains of {}", f.text()), || {
            toy::generic(ctx.seed);
            chains::<G61>(ctx, f)
        });
    });
    // large keys: rewrites, and long chains of delegations
    let mut lg: Vec<(F, F)> = vec![];
    for (n, k) in if ctx.quick() { vec![(9, 30), (17, 10), (34, 4), (66, 1)] } else { vec![(9, 60), (12, 60), (17, 60), (34, 30), (50, 8), (66, 6), (100, 1)] } {
        for f in crate::lin::larges(n) {
            let rs = f.rewrites();
            let step = rs.len().div_ceil(k).max(1);
            lg.extend(rs.into_iter().step_by(step).map(|c| (f.clone(), c)));
        }
    }
    lg.sort_by_key(|x| std::cmp::Reverse(x.0.size()));
    ctx.par(&lg, |(f, c)| {
        ctx.case(format!("large {} to {}", f.text(), c.text()), || {
            toy::generic(ctx.seed);
            large::<G61>(ctx, f, c, ctx.pick(8, 40))
        });
    });
    let lf: Vec<F> = [5, 8, 14].into_iter().flat_map(crate::lin::larges).collect();
    ctx.par(&lf, |f| {
        ctx.case(format!("long chain from {}", f.text()), || {
            toy::generic(ctx.seed);
            long_chain::<G61>(ctx, f, ctx.pick(70, 300))
        });
    });
    // arbitrary children
    let mut fs = vec![];
    for k in 1..=3 {
        fs.extend(trees_over(&[0, 1, 2], k));
    }
    let mut with_absent = fs.clone();
    with_absent.extend(trees_over(&[0, 3], 2));
    with_absent.push(F::L(3));
    ctx.par(&fs, |p| {
        ctx.case(format!("any delegation of {}", p.text()), || {
            toy::generic(ctx.seed);
            any_child::<G61>(ctx, p, &with_absent, &[0, 1, 2, 3])
        });
    });
    if !ctx.quick() {
        let mut c4 = vec![];
        for k in 1..=4 {
            c4.extend(trees_over(&[0, 1, 2, 3], k));
        }
        let p4 = trees(&[0, 1, 2, 3]);
        ctx.par(&p4, |p| {
            ctx.case(format!("any delegation of 4 leaves {}", p.text()), || {
                toy::generic(ctx.seed);
                any_child::<G61>(ctx, p, &c4, &[0, 1, 2, 3])
            });
        });
    }
    // policies
    let sp = Spec::new(&[("H", &["a", "b", "c"], true), ("D", &["x", "y"], false)], 10);
    let menu0: Vec<Ap> = sp.all().into_iter().map(Ap::L).collect();
    let mut menu = vec![Ap::All];
    for k in 1..=2 {
        menu.extend(aps(&menu0, k));
    }
    let mut parents = menu.clone();
    parents.extend(aps(&menu0, 3).into_iter().filter(|a| !a.repeats(&sp)));
    parents.retain(|a| !a.repeats(&sp));
    ctx.par(&parents, |p| {
        ctx.case(format!("policy delegation of {}", p.text(&sp)), || {
            toy::generic(ctx.seed);
            engine::<G61>(ctx, &sp, p, &menu)?;
            engine_exact::<G61>(ctx, &sp, p)
        });
    });
    // delegation across rotations
    let sr = Spec::new(&[("H", &["a", "b"], true), ("D", &["x", "y"], false)], 7);
    let leaves: Vec<Ap> = sr.all().into_iter().map(Ap::L).collect();
    let mut small = vec![Ap::All];
    for k in 1..=2 {
        small.extend(aps(&leaves, k).into_iter().filter(|a| !a.repeats(&sr)));
    }
    let mut rots: Vec<Vec<At>> = sr.all().into_iter().map(|a| vec![a]).collect();
    for k in 1..ctx.pick(2, 3) {
        for r in rots.clone().into_iter().filter(|r| r.len() == k) {
            for a in sr.all() {
                rots.push(r.iter().copied().chain([a]).collect());
            }
        }
    }
    let mut jobs = vec![];
    for r in &rots {
        let three = aps(&leaves, 3).into_iter().filter(|a| !a.repeats(&sr));
        for p in small.iter().cloned().chain(three.take(if r.len() < 3 { usize::MAX } else { 0 })) {
            if r.len() < 2 || p == Ap::All || r.iter().any(|a| p.leaves().iter().flat_map(|l| sr.expand(*l)).any(|x| x == *a)) {
                jobs.push((p, r.clone()));
            }
        }
    }
    ctx.par(&jobs, |(p, r)| {
        ctx.case(format!("delegation of {} across rotations of {r:?}", p.text(&sr)), || {
            toy::generic(ctx.seed);
            across::<G61>(ctx, &sr, p, r, &small)
        });
    });
    ctx.case("BLS12-381 delegation across rotations", || {
        let l = |i, j| Ap::L((i, j));
        across::<Bls>(ctx, &sr, &Ap::and(l(0, 1), l(1, 0)), &[(0, 0)], &small)?;
        across::<Bls>(ctx, &sr, &Ap::or(l(0, 0), l(1, 0)), &[(1, 0)], &small)
    });
    // an unknown attribute in the delegated policy
    ctx.case("delegation to attributes the policy does not define", || {
        let pol = sp.policy()?;
        let (mk, _, dk) = e_master::<G61>(&pol)?;
        let k = e_key::<G61>(&pol, &mk, &AccessPolicy::All)?;
        for ap in [AccessPolicy::new("H", "zz"), AccessPolicy::new("Z", "a"), AccessPolicy::new("D", "x") & AccessPolicy::new("D", "q")] {
            if Engine::<G61>::new().delegate_user_key(&pol, &dk, &k, &ap).is_ok() {
                return Err(format!("accepted {ap:?}"));
            }
        }
        Ok(())
    });
    // the product
    let mut bl = vec![];
    for k in 1..=ctx.pick(3, 4) {
        bl.extend(trees(&(1..=k as u32).collect::<Vec<_>>()));
    }
    ctx.par(&bl, |f| {
        ctx.case(format!("BLS12-381 rewrites of {}", f.text()), || rewrites::<Bls>(ctx, f, false));
    });
    let bp: Vec<F> = trees(&[0, 1]).into_iter().chain(trees(&[0, 1, 2]).into_iter().take(ctx.pick(3, 8))).collect();
    let bc: Vec<F> = fs.iter().filter(|f| f.size() <= 2).cloned().collect();
    ctx.par(&bp, |p| {
        ctx.case(format!("BLS12-381 any delegation of {}", p.text()), || any_child::<Bls>(ctx, p, &bc, &[0, 1, 2]));
    });
    ctx.sample(|| "((1|2)&3) delegated to ((1&2)&3), then randomised".into());
}
