//! P02: axis semantics
use crate::{abe::*, pol::*, sup::*, toy};
use cosmian_abe_gpsw::interfaces::abe_policy::{AccessPolicy, Attribute, Policy};

fn specs(ctx: &Ctx) -> Vec<(Spec, usize)> {
    // (policy, max leaves of the access policies)
    let d = ctx.pick(0, 1);
    vec![
        (Spec::new(&[("H", &["a", "b", "c"], true), ("D", &["a", "x"], false)], 9), 3 + d),
        (Spec::new(&[("D", &["x", "y", "z"], false), ("H", &["l1", "l2"], true)], 5), 3 + d),
        (Spec::new(&[("H", &["l1", "l2"], true), ("G", &["l1", "l2"], true)], 6), 3 + d),
        (Spec::new(&[("Security Level", &["Top Secret", "Protected", "Confidential", "Low", "z"], true)], 12), 2 + d),
        (Spec::new(&[("A", &["p"], true), ("B", &["p"], false), ("C", &["p"], true), ("AB", &["p"], false)], 4), 3 + d),
        (Spec::new(&[("D", &["x", "y", "z", "t", "u"], false)], 7), 2 + d),
        (Spec::new(&[("É", &["ü", "u", "ñ"], true), ("", &["", "0"], false)], 8), 2 + d),
    ]
}

/// one access policy against every attribute set
fn one<A: Sch>(ctx: &Ctx, sp: &Spec, pol: &Policy, keys: &(Mk<A>, Pk<A>, Dk<A>), ap: &Ap) -> Result<(), String> {
    let k = e_key::<A>(pol, &keys.0, &ap.real(sp));
    ctx.state(1);
    ctx.op(1);
    let k = match k {
        Err(_) if ap.repeats(sp) => {
            ctx.outcome("repeated attribute refused", 1);
            return Ok(());
        }
        k => k?,
    };
    let (mut y, mut n) = (0, 0);
    for (i, st) in at_subsets(&sp.all()).into_iter().enumerate() {
        let mut st2 = st.clone();
        if i % 3 == 1 {
            st2.reverse();
        } else if i % 3 == 2 && !st2.is_empty() {
            st2.rotate_left(1);
        }
        let m = e_pt::<A>()?;
        let ct = e_enc::<A>(pol, &keys.1, &sp.attrs(&st2), &m)?;
        let expect = ap.eval(sp, &|a| st.contains(&a));
        judge(&e_dec::<A>(&ct, &k)?, expect, &bytes(&m)?)
            .map_err(|e| format!("access policy {} on {:?}: {e}", ap.text(sp), sp.attrs(&st2)))?;
        if expect {
            y += 1
        } else {
            n += 1
        }
        ctx.op(2);
        ctx.trace(1);
    }
    ctx.outcome("opened", y);
    ctx.outcome("refused", n);
    ctx.beat();
    Ok(())
}

fn unknown<A: Sch>(ctx: &Ctx, sp: &Spec) -> Result<(), String> {
    let pol = sp.policy()?;
    let keys = e_master::<A>(&pol)?;
    let good = sp.all();
    let bads: Vec<Attribute> = vec![
        Attribute::new("nope", &sp.axes[0].1[0]),
        Attribute::new(&sp.axes[0].0, "nope"),
        Attribute::new(&sp.axes[0].0.to_lowercase().repeat(2), &sp.axes[0].1[0]),
        Attribute::new(&sp.axes[0].1[0], &sp.axes[0].0),
        Attribute::new(&format!("{} ", sp.axes[0].0), &sp.axes[0].1[0]),
        Attribute::new(&sp.axes[0].0, &format!("{} ", sp.axes[0].1[0])),
        Attribute::new("", "?"),
        Attribute::new(&flip(&sp.axes[0].0), &sp.axes[0].1[0]),
        Attribute::new(&sp.axes[0].0, &flip(&sp.axes[0].1[0])),
        Attribute::new(&sp.axes[0].0, &format!("{}{}", sp.axes[0].1[0], sp.axes[0].1[0])),
        Attribute::new(&format!("{}::{}", sp.axes[0].0, sp.axes[0].1[0]), &sp.axes[0].1[0]),
    ];
    // every tree of 1..3 leaves with a bad leaf in every position
    let menu: Vec<Ap> = good.iter().map(|a| Ap::L(*a)).collect();
    let mut bad_leaves: Vec<AccessPolicy> = bads.iter().map(|b| AccessPolicy::Attr(b.clone())).collect();
    bad_leaves.push(AccessPolicy::All);
    for bad in &bad_leaves {
        let mut cands = vec![];
        if !matches!(bad, AccessPolicy::All) {
            cands.push(bad.clone());
        }
        for ap in aps(&menu[..menu.len().min(3)], 1).into_iter().chain(aps(&menu[..menu.len().min(3)], 2)) {
            let r = ap.real(sp);
            for (x, y) in [(r.clone(), bad.clone()), (bad.clone(), r.clone())] {
                cands.push(x.clone() & y.clone());
                cands.push(x.clone() | y.clone());
                let g = AccessPolicy::Attr(sp.attr(*good.last().unwrap()));
                cands.push((x.clone() & y.clone()) | g.clone());
                cands.push(g.clone() & (x | y));
            }
        }
        cands.push(bad.clone() | bad.clone());
        for c in cands {
            ctx.op(1);
            if e_key::<A>(&pol, &keys.0, &c).is_ok() {
                return Err(format!("key issued for {c:?} although it names {bad:?}"));
            }
            ctx.outcome("unknown name refused at key issue", 1);
        }
    }
    for b in &bads {
        for st in at_subsets(&good) {
            let mut v = sp.attrs(&st);
            for pos in 0..=v.len() {
                v.insert(pos, b.clone());
                ctx.op(1);
                let m = e_pt::<A>()?;
                if e_enc::<A>(&pol, &keys.1, &v, &m).is_ok() {
                    return Err(format!("encryption accepted unknown attribute {b:?} in {v:?}"));
                }
                v.remove(pos);
                ctx.outcome("unknown name refused at encryption", 1);
            }
        }
    }
    ctx.state(1);
    ctx.trace(1);
    Ok(())
}

/// the other case, or another name when there is none
fn flip(s: &str) -> String {
    let u = s.to_uppercase();
    if u != s {
        u
    } else if s.to_lowercase() != s {
        s.to_lowercase()
    } else {
        format!("{s}~")
    }
}

/// Easily confused names, in every order, and long axes: every leaf against every single attribute
fn names(ctx: &Ctx) {
    const N: [&str; 9] = ["a", "A", "aa", " a", "a ", "á", "b", "a::b", "0"];
    let n = ctx.pick(6, N.len());
    let mut lists: Vec<Vec<String>> = vec![];
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if i != j && j != k && i != k {
                    lists.push([i, j, k].iter().map(|x| N[*x].to_string()).collect());
                }
            }
        }
    }
    for len in [8usize, 17, ctx.pick(33, 130)] {
        // declared in an order that is not the alphabetical one
        lists.push((0..len).map(|i| format!("n{}", (i * 7 + 3) % 251)).collect());
        lists.push((0..len).map(|i| format!("{}", len - i)).collect());
        lists.push((0..len).map(|i| "x".repeat(i + 1)).collect());
    }
    ctx.par(&lists, |l| {
        for hier in [true, false] {
            ctx.case(format!("names {:?}{} hierarchical {hier}", &l[..3], if l.len() > 3 { format!("… {}", l.len()) } else { String::new() }), || {
                toy::generic(ctx.seed);
                let sp = Spec { axes: vec![("a".into(), l.clone(), hier), ("A".into(), vec!["a".into()], hier), ("aa".into(), vec![l[0].clone()], false)], max: l.len() as u32 + 2 };
                let pol = sp.policy()?;
                let (mk, pk, _) = e_master::<G61>(&pol)?;
                let all = sp.all();
                let m = e_pt::<G61>()?;
                let cts = all.iter().map(|c| e_enc::<G61>(&pol, &pk, &[sp.attr(*c)], &m)).collect::<Result<Vec<_>, _>>()?;
                for a in &all {
                    let k = e_key::<G61>(&pol, &mk, &AccessPolicy::Attr(sp.attr(*a)))?;
                    let opens = sp.expand(*a);
                    for (c, ct) in all.iter().zip(&cts) {
                        judge(&e_dec::<G61>(ct, &k)?, opens.contains(c), &bytes(&m)?)
                            .map_err(|e| format!("key for {:?} on {:?}: {e}", sp.attr(*a), sp.attr(*c)))?;
                        ctx.op(1);
                    }
                    ctx.state(1);
                }
                ctx.trace(all.len() as u64);
                Ok(())
            });
        }
    });
}

/// The wildcard key and attributes created later
fn later<A: Sch>(ctx: &Ctx, sp: &Spec) -> Result<(), String> {
    let mut full = sp.clone();
    full.axes.push(("Later".into(), vec!["n1".into(), "n2".into()], true));
    full.max = sp.n() as u32 + 4;
    let mut pol = Policy::new(full.max);
    for i in 0..sp.axes.len() {
        pol.add_axis(&full.axis(i)).map_err(s("add_axis"))?;
    }
    let keys = e_master::<A>(&pol)?;
    let old = e_key::<A>(&pol, &keys.0, &AccessPolicy::All)?;
    pol.add_axis(&full.axis(sp.axes.len())).map_err(s("add_axis"))?;
    let new = e_key::<A>(&pol, &keys.0, &AccessPolicy::All)?;
    for st in at_subsets(&full.all()) {
        let m = e_pt::<A>()?;
        let mb = bytes(&m)?;
        let ct = e_enc::<A>(&pol, &keys.1, &full.attrs(&st), &m)?;
        judge(&e_dec::<A>(&ct, &old)?, st.iter().any(|a| a.0 < sp.axes.len()), &mb)
            .map_err(|e| format!("wildcard key issued before axis Later, {st:?}: {e}"))?;
        judge(&e_dec::<A>(&ct, &new)?, !st.is_empty(), &mb).map_err(|e| format!("wildcard key, {st:?}: {e}"))?;
        ctx.op(3);
        ctx.trace(1);
        ctx.state(1);
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    crate::cif::axes(ctx);
    for (si, (sp, k)) in specs(ctx).into_iter().enumerate() {
        let menu: Vec<Ap> = sp.all().into_iter().map(Ap::L).collect();
        let mut all: Vec<Ap> = (1..=k).flat_map(|k| aps(&menu, k)).collect();
        all.push(Ap::All);
        // chunk so that master keys are shared
        let chunks: Vec<&[Ap]> = all.chunks(64).collect();
        for rotated in [false, true] {
            if rotated && sp.n() as u32 == sp.max {
                continue;
            }
            ctx.par(&chunks, |c| {
                toy::generic(ctx.seed + si as u64);
                let Ok(Ok((pol, keys))) = guarded(|| {
                    let mut pol = sp.policy()?;
                    if rotated {
                        pol.rotate(&sp.attr(sp.all()[0])).map_err(s("rotate"))?;
                    }
                    let k = e_master::<G61>(&pol)?;
                    Ok::<_, String>((pol, k))
                }) else {
                    ctx.case(format!("policy {si}"), || Err("master keys cannot be generated".into()));
                    return;
                };
                for ap in *c {
                    ctx.case(format!("policy {si}{} access {}", if rotated { " rotated" } else { "" }, ap.text(&sp)), || {
                        toy::generic(ctx.seed);
                        one::<G61>(ctx, &sp, &pol, &keys, ap)
                    });
                }
            });
        }
        ctx.case(format!("policy {si} unknown names"), || {
            toy::generic(ctx.seed);
            unknown::<G61>(ctx, &sp)
        });
        ctx.case(format!("policy {si} later axis"), || {
            toy::generic(ctx.seed);
            later::<G61>(ctx, &sp)
        });
    }
    names(ctx);
    // product
    let sp = Spec::new(&[("H", &["a", "b", "c"], true), ("D", &["a", "x"], false)], 9);
    let menu: Vec<Ap> = sp.all().into_iter().map(Ap::L).collect();
    let mut all: Vec<Ap> = (1..=2).flat_map(|k| aps(&menu, k)).collect();
    if !ctx.quick() {
        all.extend(aps(&menu, 3));
    }
    all.push(Ap::All);
    ctx.par(&all.chunks(4).collect::<Vec<_>>(), |c| {
        for ap in *c {
            ctx.case(format!("BLS12-381 access {}", ap.text(&sp)), || {
                let pol = sp.policy()?;
                let keys = e_master::<Bls>(&pol)?;
                one::<Bls>(ctx, &sp, &pol, &keys, ap)
            });
        }
    });
    ctx.case("wildcard on an empty policy", || {
        let pol = Policy::new(4);
        let keys = e_master::<G61>(&pol)?;
        if e_key::<G61>(&pol, &keys.0, &AccessPolicy::All).is_ok() {
            return Err("wildcard key issued for a policy without attributes".into());
        }
        Ok(())
    });
    ctx.case("BLS12-381 unknown names", || unknown::<Bls>(ctx, &Spec::new(&[("H", &["a", "b"], true)], 4)));
    ctx.sample(|| format!("access (H::b || (H::c && D::a)) on all {} attribute sets", 1 << sp.n()));
}
